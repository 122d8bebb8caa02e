V = "contracts/marketplace/src/"
R = "contracts/reserve-auction/src/"
S = "contracts/stargaze-marketplace-v2/src/"
SEEDS = [
 dict(id="m18-older-minor", property="M18", crate="v1",
  edits=[(V + "execute.rs", "    if version > new_version {", "    if version.major > new_version.major {")],
  needs="a migration to code whose minor or patch version is older than the deployed one",
  breaks="older code is accepted over newer records: the downgrade is recorded as an upgrade",
  demo="""
    let mut c = market(init());
    let v: serde_json::Value = serde_json::from_slice(&c.deps.storage.get(b"contract_info").unwrap()).unwrap();
    let mut n: Vec<u64> = v["version"].as_str().unwrap().split('.').map(|x| x.parse().unwrap()).collect();
    n[1] += 1;
    let newer = serde_json::json!({"contract": v["contract"], "version": format!("{}.{}.{}", n[0], n[1], n[2])}).to_string();
    c.deps.storage.set(b"contract_info", newer.as_bytes());
    let env = c.env.clone();
    let r = sg_marketplace::execute::migrate(c.deps.as_mut(), env, Empty {});
    println!("{r:?}");
    assert!(r.is_err());
    assert_eq!(c.deps.storage.get(b"contract_info").unwrap(), newer.as_bytes());
"""),
 dict(id="m18-sale-type-renamed", property="M18", crate="v1",
  edits=[(V + "state.rs", "pub enum SaleType {\n    FixedPrice,", "pub enum SaleType {\n    #[serde(rename = \"fixed-price\")]\n    FixedPrice,")],
  needs="a listing stored before the upgrade",
  breaks="listings stored by earlier versions can no longer be read: every sale, update and query of them fails",
  demo="""
    let mut c = market(init());
    c.token(C, "1", "seller");
    let m = ask(&c, 1, 100);
    exec(&mut c, "seller", 0, m).unwrap();
    // the listing as the deployed version wrote it
    let k = c.deps.storage.range(None, None, cosmwasm_std::Order::Ascending).find(|(k, v)| String::from_utf8_lossy(v).contains("\\"funds_recipient\\"")).unwrap();
    let v = String::from_utf8(k.1).unwrap();
    println!("{v}");
    let old = serde_json::from_str::<serde_json::Value>(&v).map(|mut x| { x["sale_type"] = "fixed_price".into(); x }).unwrap();
    c.deps.storage.set(&k.0, old.to_string().as_bytes());
    let a = asks().load(&c.deps.storage, ask_key(&Addr::unchecked(C), 1)).unwrap();
    assert_eq!(a.price.u128(), 100);
"""),
 dict(id="r17-migrate-clears-halts", property="R17", crate="ra",
  edits=[(R + "migrate.rs", "    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;", """    crate::state::HALT_MANAGER.save(
        deps.storage,
        &crate::state::HaltManager {
            prev_block_time: _env.block.time.seconds(),
            halt_windows: vec![],
        },
    )?;
    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;""")],
  needs="an upgrade right after a chain halt, before the auctions that ended during it were handled",
  breaks="the halt recorded before the upgrade is forgotten, and auctions that ended during it are settled instead of postponed",
  demo="""
    let mut c = house(init());
    begin(&mut c).unwrap();
    c.forward(7200);
    begin(&mut c).unwrap();
    let h = query(&c, QueryMsg::HaltManager {});
    println!("{h}");
    let env = c.env.clone();
    stargaze_reserve_auction::migrate::migrate(c.deps.as_mut(), env, serde_json::from_str("{}").unwrap()).unwrap();
    assert_eq!(query(&c, QueryMsg::HaltManager {}), h);
"""),
 dict(id="r17-bid-renamed", property="R17", crate="ra",
  edits=[(R + "state.rs", "pub struct HighBid {\n    pub coin: Coin,", "pub struct HighBid {\n    #[serde(rename = \"amount\")]\n    pub coin: Coin,")],
  needs="an auction with a bid that was stored before the upgrade",
  breaks="auctions with a bid can no longer be read: they cannot be outbid or settled and the token and bid stay locked",
  demo="""
    let mut c = house(init());
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(10, D), 1000).unwrap();
    place(&mut c, "b", "1", coin(10, D)).unwrap();
    // as the deployed version wrote it
    use cosmwasm_std::Storage;
    let k: Vec<u8> = c.deps.storage.range(None, None, cosmwasm_std::Order::Ascending)
        .find(|(_, v)| serde_json::from_slice::<serde_json::Value>(v).map_or(false, |v| v["high_bid"].is_object())).unwrap().0;
    let mut v: serde_json::Value = serde_json::from_slice(&c.deps.storage.get(&k).unwrap()).unwrap();
    v["high_bid"] = serde_json::json!({"coin": {"denom": D, "amount": "12"}, "bidder": "b"});
    c.deps.storage.set(&k, v.to_string().as_bytes());
    let a = auction(&c, "1");
    println!("{a}");
    assert!(a["high_bid"].to_string().contains("12"));
"""),
 dict(id="v18-fees-moved", property="V18", crate="v2",
  edits=[(S + "state.rs", "pub const LISTING_FEES: Map<Denom, Uint128> = Map::new(\"L\");", "pub const LISTING_FEES: Map<Denom, Uint128> = Map::new(\"D\");")],
  needs="listing fees set before the upgrade",
  breaks="listing fees are looked for among the collections' currencies: those set before the upgrade are not charged any more",
  demo="""
    let mut s = testing::MockStorage::new();
    // as the deployed version wrote it
    s.set(b"\\0\\x01Lustars", b"\\"50\\"");
    let f = stargaze_marketplace_v2::state::LISTING_FEES.may_load(&s, "ustars".to_string()).unwrap();
    println!("{f:?}");
    assert_eq!(f.unwrap().u128(), 50);
"""),
 dict(id="v18-price-order", property="V18", crate="v2",
  edits=[(S + "state.rs", """        token_denom_price: MultiIndex::new(
            |_pk: &[u8], o: &Bid| {
                (
                    build_collection_token_index_str(o.collection.as_ref(), &o.token_id),
                    o.details.price.denom.clone(),
                    o.details.price.amount.u128(),
                )
            },
            "o",
            "o_p",
        ),""", """        token_denom_price: MultiIndex::new(
            |_pk: &[u8], o: &Bid| {
                (
                    build_collection_token_index_str(o.collection.as_ref(), &o.token_id),
                    o.details.price.denom.clone(),
                    o.details.price.amount.u128(),
                )
            },
            "o",
            "o_t",
        ),""")],
  needs="bids stored before the upgrade",
  breaks="bids stored before the upgrade are missing from the index of the new code: they are neither listed nor matched with sales",
  demo="""
    let mut s = testing::MockStorage::new();
    let b = serde_json::json!({"id": "i", "creator": "b", "collection": "collection", "token_id": "1", "details": {"price": {"denom": "ustars", "amount": "5"}, "recipient": null, "finder": null}});
    let b: stargaze_marketplace_v2::orders::Bid = serde_json::from_value(b).unwrap();
    stargaze_marketplace_v2::state::bids().save(&mut s, "i".to_string(), &b).unwrap();
    let n = s.range(None, None, cosmwasm_std::Order::Ascending).filter(|(k, _)| k.windows(5).any(|w| w == b"\\0\\x03o_p")).count();
    assert_eq!(n, 1);
"""),
 dict(id="m19-inactive-renamed", property="M19", crate="v1",
  edits=[(V + "msg.rs", """    #[returns(AsksResponse)]
    AsksSortedByPrice {
        collection: Collection,
        include_inactive: Option<bool>,""", """    #[returns(AsksResponse)]
    AsksSortedByPrice {
        collection: Collection,
        #[serde(rename = "inactive")]
        include_inactive: Option<bool>,""")],
  needs="a client that asks for inactive listings by price",
  breaks="the query is refused with an unknown field",
  demo="""
    let m: Result<QueryMsg, _> = from_json(br#"{"asks_sorted_by_price":{"collection":"c","include_inactive":true,"start_after":null,"limit":5}}"#);
    println!("{m:?}");
    assert!(m.is_ok());
"""),
 dict(id="m19-sale-hook-field", property="M19", crate="v1",
  edits=[(V + "msg.rs", "    pub price: Coin,\n    pub seller: String,\n    pub buyer: String,\n}", "    pub price: Coin,\n    #[serde(rename = \"from\")]\n    pub seller: String,\n    pub buyer: String,\n}")],
  needs="a contract registered for sale notifications",
  breaks="the contract cannot read the notification any more, and the sale is not counted",
  demo="""
    let h = SaleHookMsg::new("c".into(), 1, coin(5, D), "s".into(), "b".into()).into_json_binary().unwrap();
    println!("{}", String::from_utf8(h.to_vec()).unwrap());
    let v: serde_json::Value = serde_json::from_slice(&h).unwrap();
    assert_eq!(v["sale_hook"]["seller"], "s");
"""),
 dict(id="r18-answer-shape", property="R18", crate="ra",
  edits=[(R + "state.rs", "    pub end_time: Option<Timestamp>,", "    #[serde(rename = \"ends_at\", alias = \"end_time\")]\n    pub end_time: Option<Timestamp>,")],
  needs="a client that shows when an auction ends; stored auctions are still read",
  breaks="answers no longer name the end of an auction as clients know it",
  demo="""
    let mut c = house(init());
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(10, D), 1000).unwrap();
    place(&mut c, "b", "1", coin(10, D)).unwrap();
    let a = auction(&c, "1");
    println!("{a}");
    assert!(a["end_time"].is_string());
"""),
 dict(id="v19-order-details", property="V19", crate="v2",
  edits=[(S + "orders.rs", "    pub recipient: Option<T>,", "    #[serde(rename = \"funds_recipient\")]\n    pub recipient: Option<T>,")],
  needs="a client that names a recipient for the proceeds",
  breaks="orders with a recipient are refused, and answers no longer name it",
  demo="""
    let m: Result<stargaze_marketplace_v2::msg::ExecuteMsg, _> = from_json(
        br#"{"set_ask":{"collection":"c","token_id":"1","details":{"price":{"denom":"ustars","amount":"5"},"recipient":"r"}}}"#);
    println!("{m:?}");
    assert!(m.is_ok());
"""),
]
