// stand-ins for the packages the TypeScript package imports: they only record what they are given
const S = global.__standins;
module.exports = {
  toUtf8: s => Buffer.from(s, 'utf8'),
  MsgExecuteContract: { fromPartial: x => x },
  useQuery: (...a) => { S.useQuery.push(a); return a },
  useMutation: (...a) => a,
};
