// the marketplace on the stand-in chain
pub use crate::chain::*;
pub use cosmwasm_std::{self, *};
pub use sg_marketplace::msg::*;
pub use cosmwasm_std::Order;
pub use sg_marketplace::state::{ask_key, asks, bid_key, bids, collection_bid_key, collection_bids, Ask, Bid, CollectionBid, SaleType, SUDO_PARAMS};
use sg_marketplace::ExpiryRange;

pub const D: &str = "ustars";
pub const C: &str = "collection";

pub fn init() -> InstantiateMsg {
    InstantiateMsg {
        operators: vec!["operator1".to_string()],
        trading_fee_bps: 200,
        ask_expiry: ExpiryRange::new(86400, 15552000),
        bid_expiry: ExpiryRange::new(86400, 15552000),
        sale_hook: None,
        max_finders_fee_bps: 1000,
        min_price: Uint128::from(5u128),
        stale_bid_duration: cw_utils::Duration::Time(100),
        bid_removal_reward_bps: 500,
        listing_fee: Uint128::zero(),
    }
}
pub fn market(m: InstantiateMsg) -> Chain {
    let mut c = Chain::new();
    c.run("gov", &[], |d, e, i| sg_marketplace::execute::instantiate(d, e, i, m)).unwrap();
    c
}
pub fn exec(c: &mut Chain, who: &str, amount: u128, m: ExecuteMsg) -> Result<sg_std::Response, String> {
    let f = if amount == 0 { vec![] } else { coins(amount, D) };
    exec_with(c, who, &f, m)
}
pub fn exec_with(c: &mut Chain, who: &str, f: &[Coin], m: ExecuteMsg) -> Result<sg_std::Response, String> {
    let r = c.run(who, f, |d, e, i| sg_marketplace::execute::execute(d, e, i, m));
    println!("{who} at {}: {}", c.now(), show(&r));
    r
}
pub fn sudo(c: &mut Chain, m: SudoMsg) -> Result<sg_std::Response, String> {
    c.run("gov", &[], |d, e, _| sg_marketplace::sudo::sudo(d, e, m))
}
pub fn in_secs(c: &Chain, s: u64) -> Timestamp {
    c.env.block.time.plus_seconds(s)
}
pub fn ask(c: &Chain, t: u32, price: u128) -> ExecuteMsg {
    ExecuteMsg::SetAsk {
        sale_type: SaleType::FixedPrice, collection: C.into(), token_id: t, price: coin(price, D), funds_recipient: None,
        reserve_for: None, finders_fee_bps: None, expires: in_secs(c, 100_000),
    }
}
pub fn bid(c: &Chain, t: u32) -> ExecuteMsg {
    ExecuteMsg::SetBid { collection: C.into(), token_id: t, expires: in_secs(c, 100_000), sale_type: SaleType::FixedPrice, finder: None, finders_fee_bps: None }
}
pub fn buy(c: &Chain, t: u32) -> ExecuteMsg {
    ExecuteMsg::BuyNow { collection: C.into(), token_id: t, expires: in_secs(c, 100_000), finder: None, finders_fee_bps: None }
}
pub fn colbid(c: &Chain) -> ExecuteMsg {
    ExecuteMsg::SetCollectionBid { collection: C.into(), expires: in_secs(c, 100_000), finders_fee_bps: None }
}
pub fn query<T: serde::de::DeserializeOwned>(c: &Chain, m: QueryMsg) -> StdResult<T> {
    from_json(sg_marketplace::query::query(c.deps.as_ref(), c.env.clone(), m)?)
}
/// what the stored bids add up to
pub fn escrow(c: &Chain) -> i128 {
    let s = &c.deps.storage;
    let b: u128 = bids().range(s, None, None, Order::Ascending).map(|x| x.unwrap().1.price.u128()).sum();
    let k: u128 = collection_bids().range(s, None, None, Order::Ascending).map(|x| x.unwrap().1.price.u128()).sum();
    (b + k) as i128
}
