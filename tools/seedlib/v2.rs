// the second marketplace on the stand-in chain
pub use crate::chain::*;
pub use cosmwasm_std::{self, *};
pub use serde_json::{json, Value};
pub use stargaze_marketplace_v2::msg::*;

pub const D: &str = "ustars";
pub const O: &str = "uatom";
pub const C: &str = "collection";

pub fn init() -> Value {
    json!({"config": {"fee_manager": "feemanager", "royalty_registry": "registry", "protocol_fee_bps": 200, "max_royalty_fee_bps": 1000,
        "maker_reward_bps": 4000, "taker_reward_bps": 2000, "default_denom": D}})
}
pub fn msg<T: serde::de::DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).unwrap()
}
/// a marketplace with a listing fee of 5, tokens 1 to 4 of the seller, admin "admin"
pub fn market() -> Chain {
    let mut c = Chain::new();
    c.run("gov", &[], |d, e, i| stargaze_marketplace_v2::instantiate::instantiate(d, e, i, msg(init()))).unwrap();
    c.nfts().admins.insert(ME.into(), "admin".into());
    for t in ["1", "2", "3", "4"] {
        c.token(C, t, "seller");
    }
    x(&mut c, "admin", &[], json!({"set_listing_fee": {"fee": coin(5, D)}})).unwrap();
    c
}
pub fn x(c: &mut Chain, who: &str, f: &[Coin], m: Value) -> Result<Response, String> {
    let text = m.to_string();
    let r = c.run(who, f, |d, e, i| stargaze_marketplace_v2::execute::execute(d, e, i, msg(m)));
    println!("{who} {text}: {}", show(&r));
    r
}
pub fn query(c: &Chain, m: Value) -> Value {
    serde_json::from_slice(&stargaze_marketplace_v2::query::query(c.deps.as_ref(), c.env.clone(), msg(m)).unwrap()).unwrap()
}
pub fn at(amount: u128) -> Value {
    json!({"price": coin(amount, D), "recipient": null, "finder": null})
}
pub fn with(amount: u128, recipient: Option<&str>, finder: Option<&str>) -> Value {
    json!({"price": coin(amount, D), "recipient": recipient, "finder": finder})
}
pub fn set_ask(c: &mut Chain, who: &str, t: &str, d: Value) -> Result<Response, String> {
    x(c, who, &coins(5, D), json!({"set_ask": {"collection": C, "token_id": t, "details": d}}))
}
pub fn set_bid(c: &mut Chain, who: &str, t: &str, d: Value, funds: u128) -> Result<Response, String> {
    x(c, who, &coins(funds, D), json!({"set_bid": {"collection": C, "token_id": t, "details": d}}))
}
pub fn set_colbid(c: &mut Chain, who: &str, d: Value, funds: u128) -> Result<Response, String> {
    x(c, who, &coins(funds, D), json!({"set_collection_bid": {"collection": C, "details": d}}))
}
fn newest(v: Value) -> String {
    v.as_array().unwrap().last().unwrap()["id"].as_str().unwrap().to_string()
}
/// ids of resting orders
pub fn ask_id(c: &Chain, who: &str, t: &str) -> String {
    let v = query(c, json!({"asks_by_creator_collection": {"creator": who, "collection": C, "query_options": null}}));
    v.as_array().unwrap().iter().find(|a| a["token_id"] == t).unwrap()["id"].as_str().unwrap().to_string()
}
pub fn bid_id(c: &Chain, who: &str) -> String {
    newest(query(c, json!({"bids_by_creator_collection": {"creator": who, "collection": C, "query_options": null}})))
}
pub fn colbid_id(c: &Chain, who: &str) -> String {
    newest(query(c, json!({"collection_bids_by_creator_collection": {"creator": who, "collection": C, "query_options": null}})))
}
pub fn asks(c: &Chain) -> usize {
    query(c, json!({"asks_by_collection_denom": {"collection": C, "denom": D, "query_options": null}})).as_array().unwrap().len()
}
pub fn royalty(c: &mut Chain, who: &str, share: &str) {
    c.nfts().royalties.insert(C.into(), json!({"royalty_protocol": null,
        "royalty_default": {"collection": C, "royalty_entry": {"recipient": who, "share": share, "updated": null}}}));
}
