// the auction house on the stand-in chain
pub use crate::chain::*;
pub use cosmwasm_std::{self, *};
pub use serde_json::{json, Value};
pub use stargaze_reserve_auction::msg::*;

pub const D: &str = "ustars";
pub const C: &str = "collection";

pub fn init() -> InstantiateMsg {
    serde_json::from_value(json!({
        "fair_burn": "fairburn", "trading_fee_percent": "0.04", "min_bid_increment_percent": "0.1", "min_duration": 60, "max_duration": 100000,
        "extend_duration": 900, "create_auction_fee": {"denom": D, "amount": "7"}, "max_auctions_to_settle_per_block": 3,
        "halt_duration_threshold": 1800, "halt_buffer_duration": 1800, "halt_postpone_duration": 3600,
        "min_reserve_prices": [{"denom": D, "amount": "10"}, {"denom": "uosmo", "amount": "20"}]
    })).unwrap()
}
pub fn house(m: InstantiateMsg) -> Chain {
    let mut c = Chain::new();
    c.run("gov", &[], |d, e, i| stargaze_reserve_auction::instantiate::instantiate(d, e, i, m)).unwrap();
    c
}
pub fn exec(c: &mut Chain, who: &str, f: &[Coin], m: ExecuteMsg) -> Result<sg_std::Response, String> {
    let r = c.run(who, f, |d, e, i| stargaze_reserve_auction::execute::execute(d, e, i, m));
    println!("{who} at {}: {}", c.now(), show(&r));
    r
}
pub fn sudo(c: &mut Chain, m: SudoMsg) -> Result<sg_std::Response, String> {
    let r = c.run("gov", &[], |d, e, _| stargaze_reserve_auction::sudo::sudo(d, e, m));
    println!("chain at {}: {}", c.now(), show(&r));
    r
}
pub fn begin(c: &mut Chain) -> Result<sg_std::Response, String> {
    sudo(c, SudoMsg::BeginBlock {})
}
pub fn end(c: &mut Chain) -> Result<sg_std::Response, String> {
    sudo(c, SudoMsg::EndBlock {})
}
pub fn query(c: &Chain, m: QueryMsg) -> Value {
    serde_json::from_slice(&stargaze_reserve_auction::query::query(c.deps.as_ref(), c.env.clone(), m).unwrap()).unwrap()
}
pub fn auction(c: &Chain, t: &str) -> Value {
    query(c, QueryMsg::Auction { collection: C.into(), token_id: t.into() })
}
pub fn create(c: &mut Chain, who: &str, t: &str, reserve: Coin, secs: u64) -> Result<sg_std::Response, String> {
    exec(c, who, &coins(7, D), ExecuteMsg::CreateAuction { collection: C.into(), token_id: t.into(), reserve_price: reserve, duration: secs, seller_funds_recipient: None })
}
pub fn place(c: &mut Chain, who: &str, t: &str, f: Coin) -> Result<sg_std::Response, String> {
    exec(c, who, &[f], ExecuteMsg::PlaceBid { collection: C.into(), token_id: t.into() })
}
pub fn settle(c: &mut Chain, who: &str, t: &str) -> Result<sg_std::Response, String> {
    exec(c, who, &[], ExecuteMsg::SettleAuction { collection: C.into(), token_id: t.into() })
}
