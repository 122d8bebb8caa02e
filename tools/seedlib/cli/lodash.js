module.exports = {
  isObject: x => typeof x === 'object' && x !== null,
  map: (o, f) => Array.isArray(o) ? o.map(f) : Object.entries(o || {}).map(([k, v]) => f(v, k)),
  some: (l, f) => l.some(f),
};
