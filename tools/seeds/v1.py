EX, SU = "contracts/marketplace/src/execute.rs", "contracts/marketplace/src/sudo.rs"
SEEDS = [
 dict(id="m02-replaced-collection-bid", property="M02", crate="v1",
  edits=[(EX, """        let refund_bidder_msg = BankMsg::Send {
            to_address: bid.bidder.to_string(),
            amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder_msg);""", """        if !bid.is_expired(&env.block) {
            let refund_bidder_msg = BankMsg::Send {
                to_address: bid.bidder.to_string(),
                amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],
            };
            res = res.add_message(refund_bidder_msg);
        }""")],
  needs="a bidder replaces his collection bid after the old one expired (but was not swept)",
  breaks="the escrow of the expired collection bid is kept by the contract when the bidder places a new one",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = colbid(&c);
    exec(&mut c, "bidder", 100, m).unwrap();
    let m = colbid(&c);
    exec(&mut c, "bidder", 70, m).unwrap();
    assert_eq!(c.of("bidder", D), -70);
    c.forward(100_001);
    let m = colbid(&c);
    exec(&mut c, "bidder", 90, m).unwrap();
    assert_eq!(c.of("bidder", D), -90);
    assert_eq!(c.of(ME, D), escrow(&c));
"""),
 dict(id="m03-proceeds-of-leftover-listing", property="M03", crate="v1",
  edits=[(EX, """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),""", """    let mut funds_recipient = Some(info.sender.clone());
    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        // pay where the listing asked for
        funds_recipient = ask.funds_recipient.or(funds_recipient);
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient,""")],
  needs="a token listed with a funds recipient, moved outside the marketplace, whose new owner accepts a bid",
  breaks="the proceeds of an accepted bid go to the funds recipient of a former owner's leftover listing",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let mut m = ask(&c, 1, 2000);
    if let ExecuteMsg::SetAsk { ref mut funds_recipient, .. } = m { *funds_recipient = Some("vault".into()); }
    exec(&mut c, "seller", 0, m).unwrap();
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 1000, m).unwrap();
    c.token(C, "1", "second");
    exec(&mut c, "second", 0, ExecuteMsg::AcceptBid { collection: C.into(), token_id: 1, bidder: "bidder".into(), finder: None }).unwrap();
    assert_eq!(c.of("vault", D), 0);
    assert_eq!(c.of("second", D), 980);
"""),
 dict(id="m04-leftover-listing", property="M04", crate="v1",
  edits=[(EX, """    collection_bids().remove(deps.storage, bid_key)?;

    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
""", """    collection_bids().remove(deps.storage, bid_key)?;

    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        if ask.seller == info.sender {
            asks().remove(deps.storage, ask_key)?;
        }
    }
""")],
  needs="a token that was listed, then moved outside the marketplace to another owner, who sells it into a collection bid",
  breaks="the listing by the previous owner survives the sale",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = ask(&c, 1, 100);
    exec(&mut c, "seller", 0, m).unwrap();
    let m = colbid(&c);
    exec(&mut c, "bidder", 100, m).unwrap();
    c.token(C, "1", "second");
    exec(&mut c, "second", 0, ExecuteMsg::AcceptCollectionBid { collection: C.into(), token_id: 1, bidder: "bidder".into(), finder: None }).unwrap();
    assert_eq!(c.owner(C, "1"), "bidder");
    let k = sg_marketplace::state::asks().may_load(&c.deps.storage, ask_key(&Addr::unchecked(C), 1)).unwrap();
    assert!(k.is_none());
"""),
 dict(id="m05-reserved-auction-window", property="M05", crate="v1",
  edits=[(EX, """            if reserved_for != bidder {""", """            if reserved_for != *asset_recipient.as_ref().unwrap_or(&bidder) {""")],
  needs="a buy-for order on a reserved listing which names the reserved account as the recipient",
  breaks="an account other than the one the listing is reserved for can buy it",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let mut m = ask(&c, 1, 100);
    if let ExecuteMsg::SetAsk { ref mut reserve_for, .. } = m { *reserve_for = Some("friend".into()); }
    exec(&mut c, "seller", 0, m).unwrap();
    let m = buy(&c, 1);
    assert!(exec(&mut c, "bidder", 100, m).is_err());
    let e = in_secs(&c, 100_000);
    let m = ExecuteMsg::BuyFor { collection: C.into(), token_id: 1, expires: e, asset_recipient: "friend".into(), finder: None, finders_fee_bps: None };
    assert!(exec(&mut c, "bidder", 100, m).is_err());
    let m = ExecuteMsg::BuyFor { collection: C.into(), token_id: 1, expires: e, asset_recipient: "third".into(), finder: None, finders_fee_bps: None };
    exec(&mut c, "friend", 100, m).unwrap();
    assert_eq!(c.owner(C, "1"), "third");
"""),
 dict(id="m06-own-listing-extends-bid", property="M06", crate="v1",
  edits=[(EX, """    let bid = bids().load(deps.storage, bid_key.clone())?;
    if bid.is_expired(&env.block) {
        return Err(ContractError::BidExpired {});
    }

    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
""", """    let bid = bids().load(deps.storage, bid_key.clone())?;
    let mut expired = bid.is_expired(&env.block);

    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        // an auction can still be settled while its listing runs
        if ask.sale_type == SaleType::Auction {
            expired = ask.is_expired(&env.block);
        }
        asks().remove(deps.storage, ask_key)?;
    }
    if expired {
        return Err(ContractError::BidExpired {});
    }
""")],
  needs="an expired bid on a token with a running auction listing",
  breaks="an expired bid can be accepted while the auction listing is live",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let mut m = ask(&c, 1, 100);
    let e = in_secs(&c, 500_000);
    if let ExecuteMsg::SetAsk { ref mut sale_type, ref mut expires, .. } = m { *sale_type = SaleType::Auction; *expires = e; }
    exec(&mut c, "seller", 0, m).unwrap();
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 100, m).unwrap();
    c.forward(100_001);
    let r = exec(&mut c, "seller", 0, ExecuteMsg::AcceptBid { collection: C.into(), token_id: 1, bidder: "bidder".into(), finder: None });
    assert!(r.is_err());
    exec(&mut c, "bidder", 0, ExecuteMsg::RemoveBid { collection: C.into(), token_id: 1 }).unwrap();
    assert_eq!(c.of("bidder", D), 0);
"""),
 dict(id="m07-listing-fee-overpaid", property="M07", crate="v1",
  edits=[(EX, "    if listing_fee != params.listing_fee {", "    if listing_fee < params.listing_fee {")],
  needs="a listing created with more than the listing fee attached",
  breaks="more than the listing fee is accepted (and burned)",
  demo="""
    let mut i = init();
    i.listing_fee = Uint128::from(10u128);
    let mut c = market(i);
    c.token(C, "1", "seller");
    let m = ask(&c, 1, 100);
    assert!(exec(&mut c, "seller", 9, m.clone()).is_err());
    assert!(exec(&mut c, "seller", 1000, m.clone()).is_err());
    exec(&mut c, "seller", 10, m).unwrap();
"""),
 dict(id="m10-stale-collection-bid", property="M10", crate="v1",
  edits=[(EX, "    let stale_time = (Expiration::AtTime(collection_bid.expires_at) + params.stale_bid_duration)?;\n    if !stale_time", "    let stale_time = (Expiration::AtTime(collection_bid.expires_at) + params.stale_bid_duration)?;\n    if !collection_bid.is_expired(&env.block) && !stale_time")],
  needs="an operator sweeps a collection bid that has expired less than the stale period ago",
  breaks="an operator can sweep (and take his reward from) a collection bid before the stale period is over",
  demo="""
    let mut c = market(init());
    let m = colbid(&c);
    exec(&mut c, "bidder", 1_000_000, m).unwrap();
    c.forward(100_050);
    let m = ExecuteMsg::RemoveStaleCollectionBid { collection: C.into(), bidder: "bidder".into() };
    assert!(exec(&mut c, "operator1", 0, m.clone()).is_err());
    c.forward(100);
    exec(&mut c, "operator1", 0, m).unwrap();
    assert!(c.of("operator1", D) > 0);
    assert_eq!(c.of(ME, D), 0);
"""),
 dict(id="m11-exit-needs-approval", property="M11", crate="v1",
  edits=[(EX, """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let key = ask_key(&collection, token_id);
    let ask = asks().load(deps.storage, key.clone())?;
    asks().remove(deps.storage, key)?;
""", """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let key = ask_key(&collection, token_id);
    let ask = asks().load(deps.storage, key.clone())?;
    if ask.seller != info.sender && ask.is_active {
        return Err(ContractError::UnauthorizedOwner {});
    }
    asks().remove(deps.storage, key)?;
""")],
  needs="a listed token was transferred outside the marketplace and its new owner removes the listing before an operator synchronised it",
  breaks="the owner of a token cannot remove the still active listing of its previous owner",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = ask(&c, 1, 100);
    exec(&mut c, "seller", 0, m).unwrap();
    c.token(C, "1", "second");
    let m = ExecuteMsg::RemoveAsk { collection: C.into(), token_id: 1 };
    assert!(exec(&mut c, "seller", 0, m.clone()).is_err());
    exec(&mut c, "second", 0, m).unwrap();
"""),
 dict(id="m12-collection-hook-reply", property="M12", crate="v1",
  edits=[(EX, "            4 => HookReply::CollectionBid,", "            5 => HookReply::CollectionBid,")],
  needs="the failure report of a subscriber to collection bids",
  breaks="a failing subscriber to collection bids makes the failure handler panic, which reverts the bid",
  demo="""
    let mut c = market(init());
    for id in 1..=4u64 {
        let r = Reply { id, result: SubMsgResult::Err("subscriber failed".into()) };
        let x = c.run("gov", &[], |d, e, _| sg_marketplace::execute::reply(d, e, r));
        assert!(x.is_ok());
    }
"""),
 dict(id="m13-expiry-carried-over", property="M13", crate="v1",
  edits=[(SU, "    params.bid_expiry = bid_expiry.unwrap_or(params.bid_expiry);", "    params.bid_expiry = bid_expiry.unwrap_or(params.ask_expiry.clone());")],
  needs="a parameter update that leaves the bid expiry range out while it differs from the listing expiry range",
  breaks="an update that does not name the bid expiry range replaces it by the listing expiry range",
  demo="""
    let mut i = init();
    i.bid_expiry = sg_marketplace::ExpiryRange::new(1000, 2000);
    let mut c = market(i);
    sudo(&mut c, SudoMsg::UpdateParams { trading_fee_bps: Some(5), ask_expiry: None, bid_expiry: None, operators: None, max_finders_fee_bps: None,
        min_price: None, stale_bid_duration: None, bid_removal_reward_bps: None, listing_fee: None }).unwrap();
    let p = SUDO_PARAMS.load(&c.deps.storage).unwrap();
    assert_eq!((p.bid_expiry.min, p.bid_expiry.max), (1000, 2000));
    assert_eq!((p.ask_expiry.min, p.ask_expiry.max), (86400, 15552000));
"""),
 dict(id="m09-sync-by-seller", property="M09", crate="v1",
  edits=[(EX, """    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;
""", """    // the seller of an auction manages its bids
    let ask = asks().may_load(deps.storage, ask_key(&collection, token_id))?;
    if !ask.map_or(false, |a| a.seller == info.sender && a.sale_type == SaleType::Auction) {
        only_owner(deps.as_ref(), &info, &collection, token_id)?;
    }

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;
""")],
  needs="a token with an auction listing was transferred outside the marketplace; its former owner rejects a bid on it",
  breaks="a former owner with a leftover auction listing can reject bids on a token he no longer owns",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let mut m = ask(&c, 1, 100);
    if let ExecuteMsg::SetAsk { ref mut sale_type, .. } = m { *sale_type = SaleType::Auction; }
    exec(&mut c, "seller", 0, m).unwrap();
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 100, m).unwrap();
    c.token(C, "1", "second");
    let m = ExecuteMsg::RejectBid { collection: C.into(), token_id: 1, bidder: "bidder".into() };
    assert!(exec(&mut c, "seller", 0, m.clone()).is_err());
    exec(&mut c, "second", 0, m).unwrap();
"""),
 dict(id="m08-bid-under-finder", property="M08", crate="v1",
  edits=[(EX, """    let bid_price = must_pay(&info, NATIVE_DENOM)?;
    if bid_price < params.min_price {""", """    let bid_price = must_pay(&info, NATIVE_DENOM)?;
    if bid_price < params.min_price && sale_type == SaleType::FixedPrice {""")],
  needs="an order marked as an auction order below the minimum price, on a token without an auction listing",
  breaks="a bid below the configured minimum price is stored",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = bid(&c, 1);
    assert!(exec(&mut c, "bidder", 4, m).is_err());
    let mut m = bid(&c, 1);
    if let ExecuteMsg::SetBid { ref mut sale_type, .. } = m { *sale_type = SaleType::Auction; }
    assert!(exec(&mut c, "bidder", 4, m).is_err());
"""),
 dict(id="m01-double-refund", property="M01", crate="v1",
  edits=[(EX, """    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;
        let refund""", """    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        if !buy_now {
            bids().remove(deps.storage, bid_key)?;
        }
        let refund""")],
  needs="a bidder with an outstanding bid buys the token at once with a buy order, then withdraws the old bid",
  breaks="the old bid is refunded by the buy order but stays stored, and can be refunded again from other bidders' escrow",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = bid(&c, 1);
    exec(&mut c, "bidder", 60, m).unwrap();
    let m = bid(&c, 2);
    exec(&mut c, "other", 80, m).unwrap();
    let m = ask(&c, 1, 100);
    exec(&mut c, "seller", 0, m).unwrap();
    let m = buy(&c, 1);
    exec(&mut c, "bidder", 100, m).unwrap();
    assert_eq!(c.of(ME, D), escrow(&c));
"""),
]
