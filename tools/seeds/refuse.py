V = "contracts/marketplace/src/"
R = "contracts/reserve-auction/src/"
S = "contracts/stargaze-marketplace-v2/src/"
SEEDS = [
 dict(id="m20-lower-rebid", property="M20", crate="v1",
  edits=[(V + "execute.rs", """    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;""", """    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        if bid_price < existing_bid.price {
            return Err(ContractError::InvalidPrice {});
        }
        bids().remove(deps.storage, bid_key)?;""")],
  needs="a bidder who replaces his bid with a lower one",
  breaks="a bidder cannot lower his bid, or buy a listing that has become cheaper than his resting bid",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = ask(&c, 1, 500);
    exec(&mut c, "seller", 0, m).unwrap();
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 400, m).unwrap();
    exec(&mut c, "seller", 0, ExecuteMsg::UpdateAskPrice { collection: C.into(), token_id: 1, price: coin(300, D) }).unwrap();
    // the listing now costs less than the bid: the bidder buys it
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 300, m).unwrap();
    assert_eq!(c.owner(C, "1"), "bidder");
"""),
 dict(id="m20-latest-expiry", property="M20", crate="v1",
  edits=[(V + "helpers.rs", "expires <= now.plus_seconds(self.max)", "expires < now.plus_seconds(self.max)")],
  needs="a bid or listing that expires exactly as late as the settings permit",
  breaks="an order with the longest permitted life is refused",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let expires = in_secs(&c, 15552000);
    exec(&mut c, "bidder", 100, ExecuteMsg::SetCollectionBid { collection: C.into(), expires, finders_fee_bps: None }).unwrap();
"""),
 dict(id="m20-accept-own-reservation", property="M20", crate="v1",
  edits=[(V + "execute.rs", """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key = bid_key(&collection, token_id, &bidder);
""", """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key = bid_key(&collection, token_id, &bidder);
    if let Some(ask) = asks().may_load(deps.storage, ask_key(&collection, token_id))? {
        if ask.reserve_for.is_some() && ask.reserve_for != Some(bidder.clone()) {
            return Err(ContractError::TokenReserved {});
        }
    }
""")],
  needs="an owner who rejects a bid while his token is reserved for somebody else",
  breaks="an owner cannot get rid of a bid on a token he reserved for somebody",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 100, m).unwrap();
    let mut m = ask(&c, 1, 500);
    if let ExecuteMsg::SetAsk { reserve_for, .. } = &mut m {
        *reserve_for = Some("friend".into());
    }
    exec(&mut c, "seller", 0, m).unwrap();
    exec(&mut c, "seller", 0, ExecuteMsg::RejectBid { collection: C.into(), token_id: 1, bidder: "bidder".into() }).unwrap();
"""),
 dict(id="r19-raise-own-bid", property="R19", crate="ra",
  edits=[(R + "execute.rs", """    // Ensure auction has not ended
    ensure!(""", """    // The leading bidder has nothing to gain from another bid
    ensure!(
        auction.high_bid.as_ref().map(|b| &b.bidder) != Some(&info.sender)
            || auction.end_time.unwrap() > block_time.plus_seconds(config.extend_duration),
        ContractError::Unauthorized {}
    );

    // Ensure auction has not ended
    ensure!(""")],
  needs="a bidder who raises his own high bid in the last minutes",
  breaks="the leading bidder cannot raise his bid to keep others away",
  demo="""
    let mut c = house(init());
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(100, D), 3600).unwrap();
    place(&mut c, "alice", "1", coin(100, D)).unwrap();
    c.forward(3000);
    place(&mut c, "alice", "1", coin(200, D)).unwrap();
"""),
 dict(id="r19-longest-duration", property="R19", crate="ra",
  edits=[(R + "execute.rs", "duration <= config.max_duration", "duration < config.max_duration")],
  needs="an auction as long as the settings permit",
  breaks="an auction of the longest permitted duration is refused",
  demo="""
    let mut c = house(init());
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(100, D), 100000).unwrap();
"""),
 dict(id="v20-least-output", property="V20", crate="v2",
  edits=[(S + "execute.rs", """        has_coins(&[collection_bid.details.price.clone()], &details.price),
""", """        collection_bid.details.price.denom == details.price.denom
            && collection_bid.details.price.amount > details.price.amount,
""")],
  needs="a collection bid accepted with a least price that is exactly its price",
  breaks="a seller who asks for exactly the price of the collection bid is turned away",
  demo="""
    let mut c = market();
    set_colbid(&mut c, "bidder", at(100), 100).unwrap();
    let id = colbid_id(&c, "bidder");
    x(&mut c, "seller", &[], json!({"accept_collection_bid": {"id": id, "token_id": "1", "details": at(100)}})).unwrap();
"""),
 dict(id="v20-own-listing", property="V20", crate="v2",
  edits=[(S + "execute.rs", """    funds = funds
        .sub(ask.details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce""", """    ensure!(
        ask.creator != info.sender || ask.details.recipient.is_none(),
        ContractError::InvalidInput("cannot accept own ask".to_string())
    );
    funds = funds
        .sub(ask.details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce""")],
  needs="a lister who buys his own listing that names another recipient of the proceeds",
  breaks="a lister cannot buy his own listing back",
  demo="""
    let mut c = market();
    set_ask(&mut c, "seller", "1", with(100, Some("friend"), None)).unwrap();
    let id = ask_id(&c, "seller", "1");
    x(&mut c, "seller", &coins(100, D), json!({"accept_ask": {"id": id, "details": at(100)}})).unwrap();
"""),
 dict(id="v20-combined-cap", property="V20", crate="v2",
  edits=[(S + "state.rs", """            self.protocol_fee_bps < MAX_BASIS_POINTS,
""", """            self.protocol_fee_bps < MAX_BASIS_POINTS
                && self.max_royalty_fee_bps < MAX_BASIS_POINTS,
""")],
  needs="an administrator who does not cap royalties (a cap of 100%)",
  breaks="royalties cannot be left uncapped any more",
  demo="""
    let mut c = market();
    let mut m = init();
    m["config"]["max_royalty_fee_bps"] = json!(10000);
    x(&mut c, "admin", &[], json!({"update_config": m})).unwrap();
"""),
]
