V = "contracts/marketplace/src/"
R = "contracts/reserve-auction/src/"
S = "contracts/stargaze-marketplace-v2/src/"
M = "\n    let mut c = market();\n"
ATTR = """
    fn attr_of(r: &[Event], ty: &str, key: &str) -> String {
        let e = r.iter().find(|e| e.ty == ty).unwrap_or_else(|| panic!("no {ty}"));
        let a: Vec<_> = e.attributes.iter().filter(|a| a.key == key).collect();
        assert_eq!(a.len(), 1, "{ty}.{key}");
        println!("{ty}.{key} = {}", a[0].value);
        a[0].value.clone()
    }
"""
SEEDS = [
 dict(id="m14-page-before-filter", property="M14", crate="v1",
  edits=[(V + "query.rs", """        .range(deps.storage, None, end, Order::Descending)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .take(limit)
        .map(|res| res.map(|item| item.1))
        .collect::<StdResult<Vec<_>>>()?;

    Ok(AsksResponse { asks })
}

pub fn query_ask_count""", """        .range(deps.storage, None, end, Order::Descending)
        .take(limit)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .map(|res| res.map(|item| item.1))
        .collect::<StdResult<Vec<_>>>()?;

    Ok(AsksResponse { asks })
}

pub fn query_ask_count""")],
  needs="a deactivated listing among the dearest of the collection and a page that is shorter than the listing",
  breaks="the listing by descending price gives short (even empty) pages, so a client that pages through it stops early",
  demo="""
    let mut c = market(init());
    for t in 1..=4u32 {
        c.token(C, &t.to_string(), "seller");
        let m = ask(&c, t, 100 * t as u128);
        exec(&mut c, "seller", 0, m).unwrap();
    }
    // two tokens move elsewhere and their listings are deactivated
    for t in ["3", "4"] {
        c.token(C, t, "somebody");
        c.nfts().approved.remove(&(C.to_string(), t.to_string()));
        exec(&mut c, "operator1", 0, ExecuteMsg::SyncAsk { collection: C.into(), token_id: t.parse().unwrap() }).unwrap();
    }
    let page = |start_before: Option<AskOffset>, inactive: Option<bool>| -> Vec<u32> {
        let r: AsksResponse = query(&c, QueryMsg::ReverseAsksSortedByPrice { collection: C.into(), include_inactive: inactive, start_before, limit: Some(2) }).unwrap();
        r.asks.iter().map(|a| a.token_id).collect()
    };
    assert_eq!(page(None, Some(true)), vec![4, 3]);
    assert_eq!(page(None, None), vec![2, 1]);
    assert_eq!(page(Some(AskOffset { price: Uint128::new(200), token_id: 2 }), None), vec![1]);
"""),
 dict(id="m15-count-capped", property="M15", crate="v1",
  edits=[(V + "query.rs", """        .keys_raw(deps.storage, None, None, Order::Ascending)
        .count() as u32;""", """        .keys_raw(deps.storage, None, None, Order::Ascending)
        .take(MAX_QUERY_LIMIT as usize)
        .count() as u32;""")],
  needs="a collection with more listings than one page holds",
  breaks="the number of listings of a collection is never more than a page",
  demo="""
    let mut c = market(init());
    for t in 1..=103u32 {
        c.token(C, &t.to_string(), "seller");
        let m = ask(&c, t, 100);
        exec(&mut c, "seller", 0, m).unwrap();
    }
    let r: AskCountResponse = query(&c, QueryMsg::AskCount { collection: C.into() }).unwrap();
    assert_eq!(r.count, 103);
"""),
 dict(id="m16-fees-above-price", property="M16", crate="v1",
  edits=[(V + "execute.rs", "            if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {", "            if payment < (network_fee + amount.amount) {")],
  needs="a sale whose fees, royalty and finder's fee together exceed the price",
  breaks="such a sale panics instead of being refused with an error",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    c.nfts().infos.insert(C.into(), (None, Some(("artist".into(), "0.95".into()))));
    let mut m = ask(&c, 1, 1000);
    if let ExecuteMsg::SetAsk { ref mut finders_fee_bps, .. } = m { *finders_fee_bps = Some(1000); }
    exec(&mut c, "seller", 0, m).unwrap();
    let m = ExecuteMsg::BuyNow { collection: C.into(), token_id: 1, expires: in_secs(&c, 100_000), finder: Some("finder".into()), finders_fee_bps: None };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&mut c, "buyer", 1000, m)));
    assert!(r.expect("no panic").is_err());
"""),
 dict(id="m17-buyer-is-recipient", property="M17", crate="v1",
  edits=[(V + "execute.rs", """        .add_attribute("buyer", buyer.to_string())
        .add_attribute("price", price.to_string())
        .add_attribute("asset_recipient", recipient.to_string());""", """        .add_attribute("buyer", recipient.to_string())
        .add_attribute("price", price.to_string())
        .add_attribute("asset_recipient", recipient.to_string());""")],
  needs="a token bought for somebody else",
  breaks="the sale is announced as if the one who gets the token had bought it",
  use="",
  demo=ATTR + """
    let mut c = market(init());
    c.token(C, "1", "seller");
    c.token(C, "2", "seller");
    for t in 1..=2 {
        let m = ask(&c, t, 100);
        exec(&mut c, "seller", 0, m).unwrap();
    }
    let m = buy(&c, 2);
    let r = exec(&mut c, "payer", 100, m).unwrap();
    assert_eq!(attr_of(&r.events, "finalize-sale", "buyer"), "payer");
    assert_eq!(attr_of(&r.events, "finalize-sale", "asset_recipient"), "payer");
    let m = ExecuteMsg::BuyFor { collection: C.into(), token_id: 1, expires: in_secs(&c, 100_000), asset_recipient: "friend".into(), finder: None, finders_fee_bps: None };
    let r = exec(&mut c, "payer", 100, m).unwrap();
    assert_eq!(attr_of(&r.events, "finalize-sale", "buyer"), "payer");
    assert_eq!(attr_of(&r.events, "finalize-sale", "asset_recipient"), "friend");
"""),
 dict(id="r08-fee-among-funds", property="R08", crate="ra",
  edits=[(R + "execute.rs", "            info.funds == vec![config.create_auction_fee.clone()],", "            has_coins(&info.funds, &config.create_auction_fee),")],
  needs="a creation that attaches more than the creation fee, or another coin with it",
  breaks="what is attached above the creation fee stays in the contract for ever",
  demo="""
    let mut c = house(init());
    c.token(C, "1", "seller");
    let m = |extra: u128| ExecuteMsg::CreateAuction { collection: C.into(), token_id: "1".into(), reserve_price: coin(100, D), duration: 1000, seller_funds_recipient: None }; 
    assert!(exec(&mut c, "seller", &coins(6, D), m(0)).is_err());
    assert!(exec(&mut c, "seller", &coins(9, D), m(2)).is_err());
    assert!(exec(&mut c, "seller", &[coin(5, "uatom"), coin(7, D)], m(0)).is_err());
    exec(&mut c, "seller", &coins(7, D), m(0)).unwrap();
    assert_eq!(c.of(ME, D), 0);
"""),
 dict(id="r13-cursor-without-token", property="R13", crate="ra",
  edits=[(R + "query.rs", "                    (end_time, (Addr::unchecked(sa.collection), sa.token_id))", '                    (end_time, (Addr::unchecked(sa.collection), "".to_string()))')],
  needs="several auctions of one collection that end at one time, and a second page",
  breaks="the listing by end time starts the next page at the collection's first auction again",
  demo="""
    let mut c = house(init());
    for t in ["1", "2", "3"] {
        c.token(C, t, "seller");
        create(&mut c, "seller", t, coin(100, D), 1000).unwrap();
        place(&mut c, "bidder", t, coin(100, D)).unwrap();
    }
    let end = c.now() + 1000;
    let mut seen = vec![];
    let mut at = None;
    for _ in 0..3 {
        let q = serde_json::from_value(json!({"auctions_by_end_time": {"end_time": end, "query_options": {"descending": null, "limit": 1, "start_after": at}}})).unwrap();
        let v = query(&c, q);
        let t = v[0]["token_id"].as_str().unwrap().to_string();
        at = Some(json!({"collection": C, "token_id": t}));
        seen.push(t);
    }
    assert_eq!(seen, vec!["1", "2", "3"]);
"""),
 dict(id="r16-end-before-extension", property="R16", crate="ra",
  edits=[(R + "execute.rs", """            let time_remaining = auction.end_time.unwrap().seconds() - block_time.seconds();
""", """            let auction_end_time = auction.end_time.unwrap();
            let time_remaining = auction_end_time.seconds() - block_time.seconds();
"""), (R + "execute.rs", """                attr("first_bid", false.to_string()),
                attr(
                    "auction_end_time",
                    auction.end_time.as_ref().unwrap().to_string(),
                ),""", """                attr("first_bid", false.to_string()),
                attr("auction_end_time", auction_end_time.to_string()),""")],
  needs="a bid close to the end, which extends the auction",
  breaks="the bid is announced with the end time from before the extension",
  use="",
  demo=ATTR + """
    let mut c = house(init());
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(100, D), 1000).unwrap();
    let r = place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    assert_eq!(attr_of(&r.events, "place-bid", "auction_end_time"), c.env.block.time.plus_seconds(1000).to_string());
    c.forward(900);
    let r = place(&mut c, "second", "1", coin(200, D)).unwrap();
    assert_eq!(attr_of(&r.events, "place-bid", "auction_end_time"), c.env.block.time.plus_seconds(900).to_string());
"""),
 dict(id="v14-joined-without-separator", property="V14", crate="v2",
  edits=[(S + "helpers.rs", '    string_list.join("/")', '    string_list.join("")')],
  needs="two collections one of whose addresses begins with the other's",
  breaks="the bids on a token include bids on another collection's token, and can be matched with its sale",
  demo=M + """
    c.token("collection1", "2", "other");
    c.token(C, "12", "seller");
    set_bid(&mut c, "bidder", "12", at(100), 100).unwrap();
    let q = |col: &str, t: &str| query(&c, json!({"bids_by_token_price": {"collection": col, "token_id": t, "denom": D, "query_options": null}})).as_array().unwrap().len();
    assert_eq!(q(C, "12"), 1);
    assert_eq!(q("collection1", "2"), 0);
"""),
 dict(id="v14-cursor-by-amount", property="V14", crate="v2",
  edits=[(S + "query.rs", """    collection: Addr,
    denom: Denom,
    query_options: QueryOptions<PriceOffset>,
) -> StdResult<Vec<CollectionBid>> {
    let QueryOptionsInternal {
        limit,
        order,
        min,
        max,
    } = query_options.unpack(&(|offset| (offset.amount, offset.id.clone())), None, None);""", """    collection: Addr,
    denom: Denom,
    query_options: QueryOptions<PriceOffset>,
) -> StdResult<Vec<CollectionBid>> {
    let QueryOptionsInternal {
        limit,
        order,
        min,
        max,
    } = query_options.unpack(&(|offset| (offset.amount, String::new())), None, None);""")],
  needs="several collection bids of one price, and a second page",
  breaks="the listing of collection bids by price repeats the bids of the cursor's price",
  demo=M + """
    for who in ["alice", "bobby", "carol"] {
        set_colbid(&mut c, who, at(100), 100).unwrap();
    }
    let mut seen = std::collections::BTreeSet::new();
    let mut min = Value::Null;
    for _ in 0..3 {
        let v = query(&c, json!({"collection_bids_by_price": {"collection": C, "denom": D, "query_options": {"limit": 1, "min": min}}}));
        min = json!({"exclusive": {"id": v[0]["id"], "amount": 100}});
        seen.insert(v[0]["creator"].as_str().unwrap().to_string());
    }
    assert_eq!(seen.len(), 3);
"""),
 dict(id="v15-stops-at-gap", property="V15", crate="v2",
  edits=[(S + "query.rs", """        if let Some(bid) = bid {
            retval.push(bid);
        }""", """        match bid {
            Some(bid) => retval.push(bid),
            None => break,
        }""")],
  needs="ids of which one that is not the last no longer exists",
  breaks="the lookup of several bids leaves out those after one that is gone",
  demo=M + """
    let mut ids = vec![];
    for (i, who) in ["alice", "bobby", "carol"].iter().enumerate() {
        set_bid(&mut c, who, "1", at(100 + i as u128), 100 + i as u128).unwrap();
        ids.push(bid_id(&c, who));
    }
    assert_eq!(query(&c, json!({"bids": ids})).as_array().unwrap().len(), 3);
    x(&mut c, "bobby", &[], json!({"remove_bid": {"id": ids[1]}})).unwrap();
    let v = query(&c, json!({"bids": ids}));
    let who: Vec<_> = v.as_array().unwrap().iter().map(|b| b["creator"].as_str().unwrap()).collect();
    assert_eq!(who, vec!["alice", "carol"]);
"""),
 dict(id="v16-finders-swapped", property="V16", crate="v2",
  edits=[(S + "helpers.rs", "    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;", "    let protocol_fees = divide_protocol_fees(config, ask.details.finder.is_some(), bid_details.finder.is_some())?;")],
  needs="a sale to a resting bid where only one of the two sides named a finder",
  breaks="such a sale panics (or keeps the finder's reward back)",
  demo=M + """
    set_ask(&mut c, "seller", "1", with(100, None, Some("finder"))).unwrap();
    set_bid(&mut c, "bidder", "1", at(100), 100).unwrap();
    set_bid(&mut c, "bidder", "2", at(100), 100).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| set_ask(&mut c, "seller", "2", with(100, None, Some("finder")))));
    r.expect("no panic").unwrap();
"""),
 dict(id="v17-price-of-listing", property="V17", crate="v2",
  edits=[(S + "helpers.rs", '        .add_attribute("price", sale_price.amount.to_string())', '        .add_attribute("price", ask.details.price.amount.to_string())')],
  needs="a listing sold to a resting bid that offers more",
  breaks="the sale is announced with the listing's price instead of the price paid",
  use="",
  demo=ATTR + M + """
    set_bid(&mut c, "bidder", "1", at(150), 150).unwrap();
    let r = set_ask(&mut c, "seller", "1", at(100)).unwrap();
    assert_eq!(attr_of(&r.events, "finalize-sale", "price"), "150");
    set_ask(&mut c, "seller", "2", at(100)).unwrap();
    let r = set_bid(&mut c, "bidder", "2", at(150), 150).unwrap();
    assert_eq!(attr_of(&r.events, "finalize-sale", "price"), "100");
"""),
 dict(id="v17-old-details", property="V17", crate="v2",
  edits=[(S + "execute.rs", """    bid.details = details;

    let mut response = Response::new();

    let match_result = bid.match_with_ask(deps.as_ref())?;
""", """    let before = bid.clone();
    bid.details = details;

    let mut response = Response::new();

    let match_result = bid.match_with_ask(deps.as_ref())?;
"""), (S + "execute.rs", """                ty: "update-bid",
                bid: &bid,""", """                ty: "update-bid",
                bid: &before,""")],
  needs="a bid that is repriced and keeps resting",
  breaks="the update is announced with the price, recipient and finder from before it",
  use="",
  demo=ATTR + M + """
    set_bid(&mut c, "bidder", "1", at(100), 100).unwrap();
    let id = bid_id(&c, "bidder");
    let r = x(&mut c, "bidder", &coins(50, D), json!({"update_bid": {"id": id, "details": with(150, None, Some("finder"))}})).unwrap();
    assert_eq!(attr_of(&r.events, "update-bid", "price"), "150ustars");
    assert_eq!(attr_of(&r.events, "update-bid", "finder"), "finder");
"""),
]
