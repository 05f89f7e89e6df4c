// Runs the scripts of a web page with stand-ins for D3 and three.js and writes
// down what the page shows.  stdin: {"kind": "d3" | "three", "scripts": [...]}
const vm = require('vm');
const inp = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = {};

function d3page() {
  const body = {tag: 'body', kids: [], attr: {}, style: {}};
  const val = (v, e, i) => typeof v === 'function' ? v.call(e, e.datum, i) : v;
  class Sel {
    constructor(els) { this.els = els; }
    each(f) { this.els.forEach(f); return this; }
    append(tag) {
      return new Sel(this.els.map(e => { const k = {tag, kids: [], attr: {}, style: {}, datum: e.datum}; e.kids.push(k); return k; }));
    }
    attr(n, v) { return this.each((e, i) => { e.attr[n] = val(v, e, i); }); }
    style(n, v) { return this.each((e, i) => { e.style[n] = val(v, e, i); }); }
    text(v) { return this.each((e, i) => { e.text = val(v, e, i); }); }
    filter(f) { return new Sel(this.els.filter((e, i) => f.call(e, e.datum, i))); }
    call() { return this; }
    on() { return this; }
    selectAll() {
      const parents = this.els;
      return {data: arr => ({enter: () => ({append: tag => {
        const made = [];
        parents.forEach(p => arr.forEach(d => { const k = {tag, kids: [], attr: {}, style: {}, datum: d}; p.kids.push(k); made.push(k); }));
        return new Sel(made);
      }})})};
    }
  }
  const ticks = [];
  const force = {
    charge: () => force, linkDistance: () => force, size: () => force,
    nodes: a => { force.n = a; return force; }, links: a => { force.l = a; return force; },
    start: () => {
      force.n.forEach((d, i) => { d.index = i; d.x = 10 * i + 1; d.y = 1000 + 10 * i; });
      force.l.forEach(l => { if (typeof l.source === 'number') l.source = force.n[l.source];
                             if (typeof l.target === 'number') l.target = force.n[l.target]; });
      return force;
    },
    on: (what, f) => { if (what === 'tick') ticks.push(f); return force; }};
  const cat = () => d => '#' + d;
  const d3 = {select: s => { if (s !== 'body') throw new Error('select ' + s); return new Sel([body]); },
              scale: {category20: cat, category10: cat}, layout: {force: () => force}};
  inp.scripts.forEach(s => vm.runInNewContext(s, {d3, JSON, Math}));
  ticks.forEach(f => f());
  const layers = body.kids.filter(k => k.tag === 'svg').map(svg => {
    const n = [];
    svg.kids.filter(k => k.tag === 'circle').forEach(k => n.push({at: [k.attr.cx, k.attr.cy], title: k.kids.filter(t => t.tag === 'title').map(t => t.text)}));
    const lines = svg.kids.filter(k => k.tag === 'line' && k.style.stroke !== undefined)
      .map(k => ({p: [k.attr.x1, k.attr.y1], q: [k.attr.x2, k.attr.y2], width: k.style['stroke-width']}));
    return {top: parseFloat(svg.style.top), label: svg.kids.filter(k => k.tag === 'text').map(k => k.text), nodes: n, lines};
  });
  out.layers = layers;
}

function threepage() {
  class V {
    constructor(x, y, z) { this.set(x || 0, y || 0, z || 0); }
    set(x, y, z) { this.x = x; this.y = y; this.z = z; return this; }
    copy(v) { return this.set(v.x, v.y, v.z); }
    clone() { return new V(this.x, this.y, this.z); }
    addVectors(a, b) { return this.set(a.x + b.x, a.y + b.y, a.z + b.z); }
    subVectors(a, b) { return this.set(a.x - b.x, a.y - b.y, a.z - b.z); }
    add(a) { return this.addVectors(this, a); }
    sub(a) { return this.subVectors(this, a); }
    multiplyScalar(s) { return this.set(this.x * s, this.y * s, this.z * s); }
    length() { return Math.sqrt(this.x * this.x + this.y * this.y + this.z * this.z); }
    normalize() { const l = this.length(); return l > 0 ? this.multiplyScalar(1 / l) : this; }
  }
  const shown = [];
  const any = () => { const f = function () {}; return new Proxy(f, {get: (t, k) => k === Symbol.toPrimitive ? () => 0 : k === 'position' ? new V() : any(), set: () => true, apply: () => any(), construct: () => any()}); };
  const special = {
    Vector3: V,
    Scene: function () { this.add = o => shown.push(o); this.position = new V(); },
    SphereGeometry: function (r) { this.sphere = r; },
    CylinderGeometry: function (r1, r2, h) { this.height = h; this.radius = r1; },
    ArrowHelper: function (dir, origin, len) { this.rotation = {dir: dir.clone()}; },
    Mesh: function (g, m) { this.geometry = g; this.position = new V(); this.setRotationFromEuler = e => { this.dir = e.dir; }; }};
  const THREE = new Proxy({}, {get: (t, k) => special[k] || any()});
  const ctx = {THREE, Math, window: {innerWidth: 800, innerHeight: 600}, document: any(), Detector: {webgl: true}, requestAnimationFrame: () => 0, console};
  inp.scripts.forEach(s => vm.runInNewContext(s, ctx));
  out.nodes = [];
  out.lines = [];
  shown.forEach(o => {
    if (!o.geometry) return;
    const p = o.position;
    if (typeof o.geometry.sphere === 'number') out.nodes.push({p: [p.x, p.y, p.z], r: o.geometry.sphere});
    else if (typeof o.geometry.height === 'number') {
      const h = o.geometry.height / 2, d = o.dir;
      out.lines.push({p: [p.x - h * d.x, p.y - h * d.y, p.z - h * d.z], q: [p.x + h * d.x, p.y + h * d.y, p.z + h * d.z]});
    }
  });
}
try {
  if (inp.kind === 'd3') d3page(); else threepage();
} catch (e) { out.error = String(e); }
process.stdout.write(JSON.stringify(out));
