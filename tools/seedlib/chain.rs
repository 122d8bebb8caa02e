// A small stand-in for the chain: balances, tokens, queries, and the messages a contract sends.
#![allow(dead_code)]
use cosmwasm_std::testing::{mock_env, MockApi, MockStorage};
use cosmwasm_std::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

pub const ME: &str = "market";

#[derive(Clone, Default)]
pub struct Nfts {
    pub owners: BTreeMap<(String, String), String>,
    pub approved: BTreeSet<(String, String)>,
    pub infos: BTreeMap<String, (Option<u64>, Option<(String, String)>)>,
    pub admins: BTreeMap<String, String>,
    pub royalties: BTreeMap<String, Value>,
    pub no_info: bool,
    pub dead: BTreeSet<String>,
}

impl Nfts {
    fn answer(&self, c: &str, q: &Value) -> Option<Value> {
        if self.dead.contains(c) {
            return None;
        }
        if let Some(o) = q.get("owner_of") {
            let k = (c.to_string(), o["token_id"].as_str()?.to_string());
            return Some(json!({"owner": self.owners.get(&k)?, "approvals": []}));
        }
        if let Some(o) = q.get("approval") {
            let k = (c.to_string(), o["token_id"].as_str()?.to_string());
            return self.approved.get(&k).map(|_| json!({"approval": {"spender": ME, "expires": {"never": {}}}}));
        }
        if q.get("collection_info").is_some() {
            if self.no_info {
                return None;
            }
            let (start, roy) = self.infos.get(c).cloned().unwrap_or((None, None));
            return Some(json!({"creator": "creator", "description": "d", "image": "ipfs://x", "external_link": null,
                "explicit_content": null, "start_trading_time": start.map(|s| s.to_string()),
                "royalty_info": roy.map(|(a, s)| json!({"payment_address": a, "share": s}))}));
        }
        if let Some(o) = q.get("royalty_payment") {
            let none = json!({"royalty_default": null, "royalty_protocol": null});
            return Some(self.royalties.get(o["collection"].as_str()?).cloned().unwrap_or(none));
        }
        if let Some((_, o)) = q.as_object()?.iter().next() {
            if let Some(col) = o.get("collection").and_then(|x| x.as_str()) {
                return Some(json!({"collection_royalty": self.royalties.get(col), "royalty_entry": self.royalties.get(col), "royalty": self.royalties.get(col)}));
            }
        }
        None
    }
}

impl Querier for Nfts {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: Value = serde_json::from_slice(bin).unwrap();
        let r = if let Some(s) = q.pointer("/wasm/smart") {
            let m: Value = serde_json::from_slice(&Binary::from_base64(s["msg"].as_str().unwrap()).unwrap()).unwrap();
            self.answer(s["contract_addr"].as_str().unwrap(), &m)
        } else if let Some(s) = q.pointer("/wasm/contract_info") {
            let c = s["contract_addr"].as_str().unwrap();
            Some(json!({"code_id": 1, "creator": "creator", "admin": self.admins.get(c), "pinned": false, "ibc_port": null}))
        } else {
            None
        };
        match r {
            Some(v) => SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&v).unwrap()))),
            None => SystemResult::Ok(ContractResult::Err("no answer".into())),
        }
    }
}

pub struct Chain {
    pub deps: OwnedDeps<MockStorage, MockApi, Nfts>,
    pub env: Env,
    pub bal: BTreeMap<(String, String), i128>,
    pub dead: BTreeSet<String>,
    pub calls: Vec<(String, Value)>,
    pub failed: Vec<u64>,
}

fn dump(s: &MockStorage) -> Vec<(Vec<u8>, Vec<u8>)> {
    s.range(None, None, Order::Ascending).collect()
}

impl Chain {
    pub fn new() -> Self {
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(ME);
        Chain {
            deps: OwnedDeps { storage: MockStorage::default(), api: MockApi::default(), querier: Nfts::default(), custom_query_type: PhantomData },
            env,
            bal: BTreeMap::new(),
            dead: BTreeSet::new(),
            calls: vec![],
            failed: vec![],
        }
    }
    pub fn now(&self) -> u64 {
        self.env.block.time.seconds()
    }
    pub fn forward(&mut self, secs: u64) {
        self.env.block.time = self.env.block.time.plus_seconds(secs);
        self.env.block.height += 1;
    }
    pub fn token(&mut self, c: &str, t: &str, owner: &str) {
        self.nfts().owners.insert((c.into(), t.into()), owner.into());
        self.nfts().approved.insert((c.into(), t.into()));
    }
    pub fn owner(&mut self, c: &str, t: &str) -> String {
        self.nfts().owners[&(c.to_string(), t.to_string())].clone()
    }
    pub fn nfts(&mut self) -> &mut Nfts {
        &mut self.deps.querier
    }
    pub fn of(&self, who: &str, denom: &str) -> i128 {
        *self.bal.get(&(who.to_string(), denom.to_string())).unwrap_or(&0)
    }
    fn pay(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        for c in coins {
            if c.amount.is_zero() {
                return Err("zero coin".into());
            }
            let n = c.amount.u128() as i128;
            if from == ME && self.of(ME, &c.denom) < n {
                return Err("insufficient funds".into());
            }
            *self.bal.entry((from.into(), c.denom.clone())).or_default() -= n;
            *self.bal.entry((to.into(), c.denom.clone())).or_default() += n;
        }
        Ok(())
    }
    fn dispatch<T: serde::Serialize>(&mut self, m: &CosmosMsg<T>) -> Result<(), String> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => self.pay(ME, to_address, amount),
            CosmosMsg::Bank(BankMsg::Burn { amount }) => self.pay(ME, "burnt", amount),
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let v: Value = serde_json::from_slice(msg).unwrap();
                self.pay(ME, contract_addr, funds)?;
                if self.dead.contains(contract_addr) {
                    return Err("dead contract".into());
                }
                if let Some(t) = v.get("transfer_nft") {
                    let k = (contract_addr.clone(), t["token_id"].as_str().unwrap().to_string());
                    let o = self.nfts().owners.get(&k).cloned().ok_or("no token")?;
                    if o != ME && !self.nfts().approved.contains(&k) {
                        return Err("not approved".into());
                    }
                    self.nfts().approved.remove(&k);
                    self.nfts().owners.insert(k, t["recipient"].as_str().unwrap().into());
                }
                self.calls.push((contract_addr.clone(), v));
                Ok(())
            }
            CosmosMsg::Custom(t) => {
                let v = serde_json::to_value(t).unwrap();
                fn find(v: &Value) -> Option<&Value> {
                    match v {
                        Value::Object(o) => o.get("amount").or_else(|| o.values().find_map(find)),
                        _ => None,
                    }
                }
                let coins: Vec<Coin> = find(&v).map(|a| serde_json::from_value(a.clone()).unwrap()).unwrap_or_default();
                self.pay(ME, "pool", &coins)
            }
            _ => Err("unknown message".into()),
        }
    }
    /// run an entry point with attached funds; everything is undone when it, or a message that has to succeed, fails
    pub fn run<T: serde::Serialize, E: std::fmt::Display>(
        &mut self, sender: &str, funds: &[Coin], f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<Response<T>, E>,
    ) -> Result<Response<T>, String> {
        let (st, bal, nfts, calls) = (dump(&self.deps.storage), self.bal.clone(), self.deps.querier.clone(), self.calls.clone());
        let go = || -> Result<Response<T>, String> {
            self.pay(sender, ME, funds)?;
            let env = self.env.clone();
            let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
            let r = f(self.deps.as_mut(), env, info).map_err(|e| e.to_string())?;
            for m in &r.messages {
                let (b, n) = (self.bal.clone(), self.deps.querier.clone());
                if let Err(e) = self.dispatch(&m.msg) {
                    if m.reply_on == ReplyOn::Never || m.reply_on == ReplyOn::Success {
                        return Err(e);
                    }
                    self.bal = b;
                    self.deps.querier = n;
                    self.failed.push(m.id);
                }
            }
            Ok(r)
        };
        let r = go();
        if r.is_err() {
            for (k, _) in dump(&self.deps.storage) {
                self.deps.storage.remove(&k);
            }
            for (k, v) in st {
                self.deps.storage.set(&k, &v);
            }
            self.bal = bal;
            self.deps.querier = nfts;
            self.calls = calls;
        }
        r
    }
}

pub fn show(r: &Result<impl std::fmt::Debug, String>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => e.clone(),
    }
}
