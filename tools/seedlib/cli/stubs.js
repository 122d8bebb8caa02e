// stand-ins for the packages the tool imports: they only record what they are given
const S = global.__standins;
let made = 0;
class Wallet {
  constructor(mnemonic, o) { this.mnemonic = mnemonic; this.prefix = o && o.prefix }
  static async fromMnemonic(m, o) { if (typeof m !== 'string') throw new Error('no phrase'); return new Wallet(m, o) }
  static async generate(n, o) { return new Wallet(n + ' words ' + ++made, o) }
  async getAccounts() { return [{ address: this.prefix + '1-' + this.mnemonic.replace(/ /g, '-') }] }
}
class Client {
  static async connect(uri) { S.connected.push(uri); return new Client() }
  async getChainId() { return 'chain' }
  async getBalance(a, denom) { S.asked.push([a, denom]); return { amount: String((S.balances[a] || {})[denom] || 0), denom } }
  async queryContractSmart(c, m) { return S.answer(c, m) }
}
class Signing extends Client {
  static async connectWithSigner(uri, w) { S.connected.push(uri); const c = new Signing(); c.w = w; return c }
  async execute(sender, contract, msg, fee, memo, funds) {
    S.most = Math.max(S.most || 0, S.open = (S.open || 0) + 1);
    await new Promise(r => setTimeout(r, 5));
    S.open--;
    S.txs.push({ signer: (await this.w.getAccounts())[0].address, sender, contract, msg: JSON.parse(JSON.stringify(msg)), funds: funds || [] });
    return {};
  }
}
module.exports = {
  Command: class { async parse() { return this.given } log(...a) { S.log.push(a.join(' ')) } },
  Flags: { string: x => x, boolean: x => x },
  CliUx: { ux: { confirm: async () => true } },
  DirectSecp256k1HdWallet: Wallet, CosmWasmClient: Client, SigningCosmWasmClient: Signing, GasPrice: { fromString: x => x },
  toUtf8: s => Buffer.from(s, 'utf8'), MsgExecuteContract: { fromPartial: x => x }, useQuery: (...a) => a, useMutation: (...a) => a,
};
