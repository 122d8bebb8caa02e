C = "typescript/packages/marketplace-cli/src/"
S, D, L, X, K, G, B = (C + x for x in ("lib/confStorage.ts", "commands/reserve-auction/schedule-end-auction.ts", "commands/keys/list.ts", "lib/cosmos/cosmWasmClient.ts",
                                       "commands/keys/set.ts", "commands/keys/generate.ts", "commands/keys/get-balance.ts"))
SETUP = """
  state.conf = { node: 'https://rpc', mnemonics: { alice: 'a a', bob: 'b b' }, 'default-mnemonic': 'alice' };
  state.answer = (c, m) => m.config ? { create_auction_fee: { amount: '3', denom: 'ustars' } } : m.auctions_by_seller ? AUCTIONS : {};
  const end = new Date(Date.now() + 3600e3).toISOString();
  const args = { 'contract-address': 'con', 'collection-address': 'coll', 'end-time': end, creator: 'alice', bidder: 'bob' };
"""
SEEDS = [
    dict(id="t03-second-key", property="T03", crate="cli",
         edits=[(S, "    const mnemonicMap = this.getMap(STORAGE_MAP.MNEMONICS)\n    if (mnemonicMap[name]) {\n      throw new Error(`name ${name} already in use`)\n    }\n    mnemonicMap[name] = mnemonic\n",
                 "    const mnemonicMap = this.getMap(STORAGE_MAP.MNEMONICS)\n    if (name === config.get(STORAGE_MAP.DEFAULT_MNEMONIC)) {\n      throw new Error(`name ${name} already in use`)\n    }\n    mnemonicMap[name] = mnemonic\n")],
         needs="a second key generated under the name of a key that is not the default", breaks="the phrase that was there is overwritten and its funds are lost",
         demo="""
  state.conf = { node: 'https://rpc', mnemonics: { alice: 'a a', bob: 'b b' }, 'default-mnemonic': 'alice' };
  await assert.rejects(run('commands/keys/generate', {}, { name: 'bob' }));
  assert.strictEqual(state.conf.mnemonics.bob, 'b b');
"""),
    dict(id="t03-unknown-name", property="T03", crate="cli",
         edits=[(K, "    const mnemonicMap = storage.getMap(STORAGE_MAP.MNEMONICS)\n    if (!mnemonicMap[flags.name]) {\n", "    storage.set(STORAGE_MAP.DEFAULT_MNEMONIC, flags.name)\n\n    const mnemonicMap = storage.getMap(STORAGE_MAP.MNEMONICS)\n    if (!mnemonicMap[flags.name]) {\n"),
                (K, "    }\n\n    storage.set(STORAGE_MAP.DEFAULT_MNEMONIC, flags.name)\n\n", "    }\n\n")],
         needs="keys set with a name that has no key", breaks="the command fails but the default is gone",
         demo="""
  state.conf = { node: 'https://rpc', mnemonics: { alice: 'a a' }, 'default-mnemonic': 'alice' };
  await assert.rejects(run('commands/keys/set', {}, { name: 'carol' }));
  assert.strictEqual(state.conf['default-mnemonic'], 'alice');
"""),
    dict(id="t03-phrase-in-error", property="T03", crate="cli",
         edits=[(S, "      throw new Error(`name ${name} already in use`)", "      throw new Error(`name ${name} already in use: ${Object.values(mnemonicMap).indexOf(mnemonicMap[name])} ${mnemonicMap[name]}`)")],
         needs="a name that is in use", breaks="the phrase of the existing key is shown in the error",
         demo="""
  state.conf = { node: 'https://rpc', mnemonics: { alice: 'very secret' }, 'default-mnemonic': 'alice' };
  await assert.rejects(run('commands/keys/generate', {}, { name: 'alice' }), e => !/secret/.test(e.message + state.log.join()));
"""),
    dict(id="t03-rich-only", property="T03", crate="cli",
         edits=[(L, "      _.map(mnemonics, async (mnemonic, key) => {\n", "      _.map(mnemonics, async (mnemonic, key) => {\n        if (mnemonic === mnemonics[storage.get(STORAGE_MAP.DEFAULT_MNEMONIC) as string]) {\n          return `${key} (default)`\n        }\n")],
         needs="a listing that contains the default key", breaks="the default key's address and balance are not shown",
         demo="""
  state.conf = { node: 'https://rpc', mnemonics: { alice: 'a a', bob: 'b b' }, 'default-mnemonic': 'alice' };
  const out = await run('commands/keys/list');
  assert(/alice: stars1-a-a 0/.test(out), out);
"""),
    dict(id="t04-any-protocol", property="T04", crate="cli",
         edits=[(C + "lib/helpers/httpUrl.ts", "  return url.protocol === 'http:' || url.protocol === 'https:'\n", "  return url.protocol.startsWith('http')\n")],
         needs="a configured node with a scheme like httpx:", breaks="the tool connects to something that is not an http or https URL",
         demo="""
  state.conf = { node: 'httpfoo://rpc', mnemonics: {} };
  await assert.rejects(run('commands/keys/get-balance', { address: 'x' }, {}));
  assert.strictEqual(state.connected.length, 0);
"""),
    dict(id="t04-stops-at-existing", property="T04", crate="cli",
         edits=[(D, "        logger(`Auction for ${tokenId} already exists...`)\n        continue\n", "        logger(`Auction for ${tokenId} already exists...`)\n        break\n")],
         needs="several tokens of which an early one is auctioned already", breaks="the tokens after it are not put up",
         demo=SETUP.replace("AUCTIONS", "[{ collection: 'coll', token_id: '1' }]") + """
  await run('commands/reserve-auction/schedule-end-auction', args, { 'token-ids': ['1', '2'] });
  assert.strictEqual(state.txs.length, 3);
"""),
    dict(id="t04-creator-bids", property="T04", crate="cli",
         edits=[(X, "  if (!accountName) {\n    accountName = storage.get(STORAGE_MAP.DEFAULT_MNEMONIC) as string\n  }\n  const mnemonicMap = storage.get(STORAGE_MAP.MNEMONICS) as StringMap\n  const mnemonic = mnemonicMap[accountName]\n",
                 "  const mnemonicMap = storage.get(STORAGE_MAP.MNEMONICS) as StringMap\n  const mnemonic =\n    mnemonicMap[accountName || ''] ??\n    mnemonicMap[storage.get(STORAGE_MAP.DEFAULT_MNEMONIC) as string]\n")],
         needs="a bidder name that has no key (a typing mistake)", breaks="the default account signs and bids on its own auction",
         demo=SETUP.replace("AUCTIONS", "[]") + """
  args.bidder = 'bbo';
  await run('commands/reserve-auction/schedule-end-auction', args, { 'token-ids': ['1'] }).catch(() => {});
  assert(!state.txs.some(t => t.msg.place_bid), 'a bid by ' + state.txs.map(t => t.signer));
"""),
    dict(id="t04-now-once", property="T04", crate="cli",
         edits=[(D, "      const now = new Date()\n      const duration = ISOToSeconds(endTime) - ISOToSeconds(now.toISOString())\n\n", "      duration = duration ?? ISOToSeconds(endTime) - ISOToSeconds(new Date().toISOString())\n\n"),
                (D, "    for (const tokenId of tokenIds) {\n", "    let duration: number | undefined\n    for (const tokenId of tokenIds) {\n")],
         needs="several tokens, some seconds apart", breaks="later auctions last as long as the first one and end after the end time",
         demo=SETUP.replace("AUCTIONS", "[]") + """
  const real = Date; let t = real.now();
  global.Date = class extends real { constructor(...a) { if (a.length) super(...a); else super(t += 20000) } static now() { return t += 20000 } };
  await run('commands/reserve-auction/schedule-end-auction', args, { 'token-ids': ['1', '2'] });
  const ds = state.txs.filter(x => x.msg.create_auction).map(x => x.msg.create_auction.duration);
  assert(ds.length === 2 && ds[1] <= ds[0] - 19, String(ds));
"""),
    dict(id="t04-bid-not-awaited", property="T04", crate="cli",
         edits=[(D, "      let createAuctionResult = await creatorReserveAuctionClient.createAuction(", "      let createAuctionResult = creatorReserveAuctionClient.createAuction(")],
         needs="a create_auction transaction that fails or takes its time", breaks="the bid is sent before the auction is there",
         demo=SETUP.replace("AUCTIONS", "[]") + """
  await run('commands/reserve-auction/schedule-end-auction', args, { 'token-ids': ['1'] });
  assert.strictEqual(state.most, 1);
"""),
]
