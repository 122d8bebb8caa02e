T = "typescript/packages/marketplace-types/src/"
R = "contracts/reserve-auction/src/"
V = "contracts/marketplace/src/"
CLIENT = """
  const calls = [];
  const signer = { execute: async (...a) => { calls.push(a); return 'done' }, queryContractSmart: async (...a) => { calls.push(a); return 'answer' } };
  const { contracts } = await load('marketplace-types/src/index.ts');
"""
SEEDS = [
 dict(id="t01-cursor-zero", property="T01", crate="ts",
  edits=[(T + "Marketplace.client.ts", """      reverse_asks: {
        collection,
        include_inactive: includeInactive,
        limit,
        start_before: startBefore
      }""", """      reverse_asks: {
        collection,
        include_inactive: includeInactive,
        limit,
        start_before: startBefore || undefined
      }""")],
  needs="a page of asks in reverse that ends before token 0",
  breaks="the cursor is dropped: the first page is asked for again, so a client walking the listing never ends",
  demo=CLIENT + """
  const q = new contracts.Marketplace.MarketplaceQueryClient(signer, 'market');
  await q.reverseAsks({ collection: 'c', startBefore: 7 });
  await q.reverseAsks({ collection: 'c', startBefore: 0, limit: 5 });
  assert.strictEqual(calls[0][1].reverse_asks.start_before, 7);
  assert.deepStrictEqual(JSON.parse(JSON.stringify(calls[1])), ['market', { reverse_asks: { collection: 'c', limit: 5, start_before: 0 } }]);
"""),
 dict(id="t01-hook-key", property="T01", crate="ts",
  edits=[(T + "Marketplace.react-query.ts", """  reverseBidsSortedByPrice: (contractAddress: string | undefined, args?: Record<string, unknown>) => ([{ ...marketplaceQueryKeys.address(contractAddress)[0],
    method: "reverse_bids_sorted_by_price",""", """  reverseBidsSortedByPrice: (contractAddress: string | undefined, args?: Record<string, unknown>) => ([{ ...marketplaceQueryKeys.address(contractAddress)[0],
    method: "bids_sorted_by_price",""")],
  needs="a page that shows the bids of a collection in both directions with the same arguments",
  breaks="the listing in one direction is answered from the cache of the other: the lowest bids are shown as the highest",
  demo=CLIENT + """
  const M = contracts.Marketplace, client = new M.MarketplaceQueryClient(signer, 'market');
  const names = Object.keys(M.marketplaceQueries);
  assert(names.length > 20);
  const keys = names.map(n => JSON.stringify(M.marketplaceQueries[n]({ client, args: { collection: 'c' } }).queryKey));
  assert.strictEqual(new Set(keys).size, keys.length);
"""),
 dict(id="t01-compose-stale-bidder", property="T01", crate="ts",
  edits=[(T + "Marketplace.message-composer.ts", """          remove_stale_bid: {
            bidder,""", """          remove_stale_bid: {
            bidder: bidder ?? this.sender,"""),
         (T + "Marketplace.message-composer.ts", """          remove_stale_collection_bid: {
            bidder,""", """          remove_stale_collection_bid: {
            bidder: this.sender,""")],
  needs="a composed message that clears another account's stale collection bid",
  breaks="the message names the sender's own bid: the stale bid stays, and the sender's own is cleared when it is stale",
  demo=CLIENT + """
  const c = new contracts.Marketplace.MarketplaceMessageComposer('me', 'market');
  for (const n of ['removeStaleBid', 'removeStaleCollectionBid']) {
    const m = c[n]({ bidder: 'other', collection: 'c', tokenId: 3 }, [{ denom: 'ustars', amount: '1' }]);
    assert.strictEqual(Object.values(JSON.parse(m.value.msg.toString()))[0].bidder, 'other');
    assert.strictEqual(m.value.sender, 'me');
  }
"""),
 dict(id="t01-answer-type", property="T01", crate="ts",
  edits=[(T + "Marketplace.types.ts", "export interface BidResponse {\n  bid?: Bid | null;\n}", "export interface BidResponse {\n  bid: Bid;\n}")],
  needs="code that asks for a bid that does not exist",
  breaks="the type says the bid is always there, so code that uses it without looking compiles and fails on null",
  demo="""
  const bad = types("import { MarketplaceQueryClient } from 'PACKAGE/Marketplace.client';\\nexport const f = async (c: MarketplaceQueryClient) => { const r = await c.bid({ collection: 'c', tokenId: 1, bidder: 'b' }); return r.bid.price };\\n");
  console.log(bad);
  assert(bad.length > 0);
"""),
 dict(id="t02-hook-off", property="T02", crate="ts",
  edits=[(T + "ReserveAuction.react-query.ts", """    queryKey: reserveAuctionQueryKeys.auction(client?.contractAddress, args),
    queryFn: () => client ? client.auction({
      collection: args.collection,
      tokenId: args.tokenId
    }) : Promise.reject(new Error("Invalid client")),
    ...options,
    enabled: !!client && (options?.enabled != undefined ? options.enabled : true)""", """    queryKey: reserveAuctionQueryKeys.auction(client?.contractAddress, args),
    queryFn: () => client ? client.auction({
      collection: args.collection,
      tokenId: args.tokenId
    }) : Promise.reject(new Error("Invalid client")),
    ...options,
    enabled: !!client && (options?.enabled || true)""")],
  needs="a caller that disables the query until the token is known",
  breaks="the query runs although it is disabled, with the arguments the caller did not have yet",
  demo=CLIENT + """
  const M = contracts.ReserveAuction, client = new M.ReserveAuctionQueryClient(signer, 'house');
  for (const n of Object.keys(M.reserveAuctionQueries)) for (const enabled of [true, false, undefined]) {
    const q = M.reserveAuctionQueries[n]({ client, args: {}, options: { enabled, retry: 3 } });
    assert.strictEqual(q.enabled, enabled !== false, n);
    assert.strictEqual(q.retry, 3);
    assert.strictEqual(M.reserveAuctionQueries[n]({ args: {}, options: { enabled } }).enabled, false);
  }
"""),
 dict(id="t02-failed-is-none", property="T02", crate="ts",
  edits=[(T + "ReserveAuction.client.ts", """    return this.client.queryContractSmart(this.contractAddress, {
      auction: {
        collection,
        token_id: tokenId
      }
    });""", """    try {
      return await this.client.queryContractSmart(this.contractAddress, {
        auction: {
          collection,
          token_id: tokenId
        }
      });
    } catch (e) {
      return null;
    }""")],
  needs="an endpoint that fails while a running auction is looked up",
  breaks="the failure is reported as 'no auction', and callers offer to create one for a token in custody",
  demo=CLIENT + """
  const M = contracts.ReserveAuction;
  assert.strictEqual(await new M.ReserveAuctionQueryClient(signer, 'house').auction({ collection: 'c', tokenId: '1' }), 'answer');
  const broken = { queryContractSmart: async () => { throw new Error('unreachable') } };
  await assert.rejects(new M.ReserveAuctionQueryClient(broken, 'house').auction({ collection: 'c', tokenId: '1' }));
"""),
 dict(id="t02-recipient-forgotten", property="T02", crate="ts",
  edits=[(T + "ReserveAuction.message-composer.ts", "            seller_funds_recipient: sellerFundsRecipient,\n", "            ...(sellerFundsRecipient === this.sender ? { seller_funds_recipient: sellerFundsRecipient } : {}),\n")],
  needs="an auction composed with proceeds for somebody else than the seller",
  breaks="the recipient is left out of the message, and the proceeds go to the seller",
  demo=CLIENT + """
  const c = new contracts.ReserveAuction.ReserveAuctionMessageComposer('me', 'house');
  const reservePrice = { denom: 'ustars', amount: '5' };
  for (const sellerFundsRecipient of ['me', 'charity', undefined]) {
    const m = c.createAuction({ collection: 'c', tokenId: '1', duration: 60, reservePrice, sellerFundsRecipient }, [reservePrice]);
    assert.strictEqual(JSON.parse(m.value.msg.toString()).create_auction.seller_funds_recipient, sellerFundsRecipient);
    assert.deepStrictEqual(m.value.funds, [reservePrice]);
  }
"""),
 dict(id="r18-auction-always", property="R18", crate="ra", deps='cosmwasm-schema = "1"\n',
  edits=[(R + "msg.rs", "    #[returns(Option<Auction>)]", "    #[returns(Auction)]")],
  needs="a client generated from the schema that asks for a token without an auction",
  breaks="the schema says an auction is always answered; generated clients have no case for none",
  use="use cosmwasm_schema::QueryResponses;",
  demo="""
    let s = stargaze_reserve_auction::msg::QueryMsg::response_schemas().unwrap();
    let v = serde_json::to_value(&s["auction"]).unwrap();
    println!("{v}");
    let none = v["anyOf"].as_array().map_or(false, |a| a.iter().any(|x| x["type"] == "null"));
    assert!(none, "an answer of null does not fit");
"""),
 dict(id="m19-ask-schema", property="M19", crate="v1", deps='cosmwasm-schema = "1"\n',
  edits=[(V + "msg.rs", """    /// Get data for a specific collection bid
    #[returns(CollectionBidResponse)]""", """    /// Get data for a specific collection bid
    #[returns(BidResponse)]""")],
  needs="a client generated from the schema that asks for a collection bid",
  breaks="the schema promises a bid for a token: generated clients read a token id that is never given",
  use="use cosmwasm_schema::QueryResponses;",
  demo="""
    let s = sg_marketplace::msg::QueryMsg::response_schemas().unwrap();
    let v = serde_json::to_value(&s["collection_bid"]).unwrap().to_string();
    println!("{v}");
    assert!(!v.contains("token_id"));
"""),
]
