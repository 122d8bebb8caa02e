const S = global.__standins;
const copy = x => x === undefined ? x : JSON.parse(JSON.stringify(x));
module.exports = class {
  get(k, d) { return copy(k in S.conf ? S.conf[k] : d) }
  set(k, v) { S.conf[k] = copy(v) }
  has(k) { return k in S.conf }
  delete(k) { delete S.conf[k] }
};
