From c4ba44c92d100e7e0b780005c57494153603f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 01/15] fix: pay the seller what the royalty leaves instead of
 stranding rounding dust

---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..7988c89 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1237,7 +1237,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 555c6a47a8caf4c9b3428cb3ca6dbd707422a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 02/15] fix: apply the ask price cap when an ask price is
 updated

---
 contracts/marketplace/src/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 7988c89..0365672 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,10 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    // the cap on new asks also applies to updated prices
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From 05ece3aa711695005b3b3acc26b73731d83ba20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 03/15] fix: require exactly the auction creation fee to be
 attached

---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..06dbcb3 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds == vec![config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 378b975a81475221b948d81719900aa071deae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 04/15] fix: keep a halt window until auctions can no longer
 end inside it

---
 contracts/reserve-auction/src/state.rs | 5 +++++
 contracts/reserve-auction/src/sudo.rs  | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..70dd816 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -145,12 +145,17 @@ impl HaltManager {
 
     pub fn find_stale_halt_info(
         &mut self,
+        current_block_time: u64,
         earliest_auction_end_time: Option<Timestamp>,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
+        // Auctions can still end within the halt window
+        if current_block_time < halt_info.end_time {
+            return None;
+        }
         if earliest_auction_end_time.is_none()
             || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
         {
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..cdfbad2 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -115,7 +115,8 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     }
 
     // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    let halt_info =
+        halt_manager.find_stale_halt_info(env.block.time.seconds(), earliest_auction_end_time);
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From f12bd289824599ae7f4dde9bc14dbc1ade82519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 05/15] fix: leave auctions that end later in the same second
 out of the block sweep

---
 contracts/reserve-auction/src/sudo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index cdfbad2..3e572c0 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -94,8 +94,10 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .idx
         .end_time
         .range(deps.storage, None, max, order)
-        .take(limit)
         .map(|item| item.map(|(_, v)| v))
+        // The index is in seconds, so it also yields auctions that end later in this second
+        .filter(|item| !matches!(item, Ok(auction) if auction.end_time > Some(env.block.time)))
+        .take(limit)
         .collect::<StdResult<Vec<Auction>>>()?;
 
     let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
-- 
2.43.0


From b12d1cb600cd65da57f1f0169ecb87e1de6ad46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 06/15] fix: reject coins attached to marketplace-v2 calls that
 keep none

---
 contracts/stargaze-marketplace-v2/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..87d2b0d 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,7 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +176,7 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +199,7 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +222,7 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +696,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +969,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From a2832ddb0844f112e28c1a992b37b84d2a197630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 07/15] fix: refuse the owner check when the collection does
 not name the owner

---
 packages/sg-marketplace-common/src/nft.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/packages/sg-marketplace-common/src/nft.rs b/packages/sg-marketplace-common/src/nft.rs
index 9df7418..fa3530b 100644
--- a/packages/sg-marketplace-common/src/nft.rs
+++ b/packages/sg-marketplace-common/src/nft.rs
@@ -40,19 +40,15 @@ pub fn only_owner(
             token_id: token_id.to_string(),
             include_expired: Some(false),
         },
-    );
+    )?;
 
-    match owner_of_response {
-        Ok(owner_of_response) => {
-            if owner_of_response.owner != info.sender {
-                return Err(MarketplaceStdError::Unauthorized(
-                    "sender is not owner".to_string(),
-                ));
-            }
-            Ok(())
-        }
-        Err(_) => Ok(()),
+    if owner_of_response.owner != info.sender {
+        return Err(MarketplaceStdError::Unauthorized(
+            "sender is not owner".to_string(),
+        ));
     }
+
+    Ok(())
 }
 
 /// Invoke `only_tradable` to check that the NFT collection start trade time threshold has elapsed.
-- 
2.43.0


From c03bb8c14e2c9f38a0b997d642a3def9abbf6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 08/15] fix: list a collection's asks from the first one when
 no cursor is given

Asks without start_after left out token 0 and ReverseAsks without
start_before was always empty.
---
 contracts/marketplace/src/query.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..6dac982 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -238,19 +238,13 @@ pub fn query_asks(
 ) -> StdResult<AsksResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
 
+    let start = start_after.map(|token_id| Bound::exclusive(ask_key(&collection, token_id)));
+
     let asks = asks()
         .idx
         .collection
-        .prefix(collection.clone())
-        .range(
-            deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
-            None,
-            Order::Ascending,
-        )
+        .prefix(collection)
+        .range(deps.storage, start, None, Order::Ascending)
         .filter(|item| match item {
             Ok((_, ask)) => match include_inactive {
                 Some(true) => true,
@@ -274,19 +268,13 @@ pub fn reverse_query_asks(
 ) -> StdResult<AsksResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
 
+    let end = start_before.map(|token_id| Bound::exclusive(ask_key(&collection, token_id)));
+
     let asks = asks()
         .idx
         .collection
-        .prefix(collection.clone())
-        .range(
-            deps.storage,
-            None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
-            Order::Descending,
-        )
+        .prefix(collection)
+        .range(deps.storage, None, end, Order::Descending)
         .filter(|item| match item {
             Ok((_, ask)) => match include_inactive {
                 Some(true) => true,
-- 
2.43.0


From d1487490779e339af859602d26afc17b5dc99c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 09/15] fix: continue the bids of a token after the given
 bidder

The cursor was compared with the whole primary key, so that every page
after the first was empty.
---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 6dac982..546c3a1 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -455,7 +455,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From d0724b6ed17f920219a147038e76c0a6fc3abfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 10/15] fix: list each collection with asks once

Collections returned one entry per ask.
---
 contracts/marketplace/src/query.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 546c3a1..1ab328a 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -213,18 +213,26 @@ pub fn query_collections(
     limit: Option<u32>,
 ) -> StdResult<CollectionsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start_addr = maybe_addr(deps.api, start_after)?;
-
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut last_collection = maybe_addr(deps.api, start_after)?;
+
+    // Skip to the next collection after each one found, as a collection may have many asks
+    let mut collections = vec![];
+    while collections.len() < limit {
+        let next_ask = asks()
+            .prefix_range(
+                deps.storage,
+                last_collection.map(PrefixBound::exclusive),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .transpose()?;
+        let Some(((collection, _), _)) = next_ask else {
+            break;
+        };
+        collections.push(collection.clone());
+        last_collection = Some(collection);
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From 868c44e2afd20e09b9be98db0f66b5a82216619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 11/15] fix: name the answers of the ask and collection bid
 list queries in the schema

The schema of Ask promised a list of asks and those of the four collection bid listings
a single bid; clients generated from it read fields that are never given.
---
 contracts/marketplace/src/msg.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contracts/marketplace/src/msg.rs b/contracts/marketplace/src/msg.rs
index b49944b..8c1db14 100644
--- a/contracts/marketplace/src/msg.rs
+++ b/contracts/marketplace/src/msg.rs
@@ -247,7 +247,7 @@ pub enum QueryMsg {
         limit: Option<u32>,
     },
     /// Get the current ask for specific NFT
-    #[returns(AsksResponse)]
+    #[returns(AskResponse)]
     Ask {
         collection: Collection,
         token_id: TokenId,
@@ -345,28 +345,28 @@ pub enum QueryMsg {
         bidder: Bidder,
     },
     /// Get all collection bids by a bidder
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsByBidder {
         bidder: Bidder,
         start_after: Option<CollectionOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids by a bidder, sorted by expiration
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsByBidderSortedByExpiration {
         bidder: Collection,
         start_after: Option<CollectionBidOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids for a collection sorted by price
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsSortedByPrice {
         collection: Collection,
         start_after: Option<CollectionBidOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids for a collection sorted by price in reverse
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     ReverseCollectionBidsSortedByPrice {
         collection: Collection,
         start_before: Option<CollectionBidOffset>,
-- 
2.43.0


From 835e990abdf513aa136ea661313ef409ca1d40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 12/15] fix: type the answers of the ask and collection bid
 list queries as they are given

The TypeScript client declared a list of asks for ask and a single bid for the four
collection bid listings.
---
 .../src/Marketplace.client.ts                 | 22 ++++----
 .../src/Marketplace.react-query.ts            | 52 +++++++++----------
 .../src/Marketplace.types.ts                  |  6 +++
 3 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/typescript/packages/marketplace-types/src/Marketplace.client.ts b/typescript/packages/marketplace-types/src/Marketplace.client.ts
index 30226f1..020f5c1 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.client.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.client.ts
@@ -6,7 +6,7 @@
 
 import { CosmWasmClient, SigningCosmWasmClient, ExecuteResult } from "@cosmjs/cosmwasm-stargate";
 import { StdFee } from "@cosmjs/amino";
-import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
+import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AskResponse, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionBidsResponse, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
 export interface MarketplaceReadOnlyInterface {
   contractAddress: string;
   collections: ({
@@ -22,7 +22,7 @@ export interface MarketplaceReadOnlyInterface {
   }: {
     collection: string;
     tokenId: number;
-  }) => Promise<AsksResponse>;
+  }) => Promise<AskResponse>;
   asks: ({
     collection,
     includeInactive,
@@ -154,7 +154,7 @@ export interface MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   collectionBidsByBidderSortedByExpiration: ({
     bidder,
     limit,
@@ -163,7 +163,7 @@ export interface MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   collectionBidsSortedByPrice: ({
     collection,
     limit,
@@ -172,7 +172,7 @@ export interface MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   reverseCollectionBidsSortedByPrice: ({
     collection,
     limit,
@@ -181,7 +181,7 @@ export interface MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   askHooks: () => Promise<HooksResponse>;
   bidHooks: () => Promise<HooksResponse>;
   saleHooks: () => Promise<HooksResponse>;
@@ -239,7 +239,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
   }: {
     collection: string;
     tokenId: number;
-  }): Promise<AsksResponse> => {
+  }): Promise<AskResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       ask: {
         collection,
@@ -485,7 +485,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_by_bidder: {
         bidder,
@@ -502,7 +502,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_by_bidder_sorted_by_expiration: {
         bidder,
@@ -519,7 +519,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_sorted_by_price: {
         collection,
@@ -536,7 +536,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       reverse_collection_bids_sorted_by_price: {
         collection,
diff --git a/typescript/packages/marketplace-types/src/Marketplace.react-query.ts b/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
index 66ff3ac..b4b3d32 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
@@ -5,7 +5,7 @@
 */
 
 import { UseQueryOptions, useQuery } from "react-query";
-import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
+import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AskResponse, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionBidsResponse, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
 import { MarketplaceQueryClient } from "./Marketplace.client";
 export const marketplaceQueryKeys = {
   contract: ([{
@@ -121,11 +121,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  ask: <TData = AsksResponse,>({
+  ask: <TData = AskResponse,>({
     client,
     args,
     options
-  }: MarketplaceAskQuery<TData>): UseQueryOptions<AsksResponse, Error, TData> => ({
+  }: MarketplaceAskQuery<TData>): UseQueryOptions<AskResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.ask(client?.contractAddress, args),
     queryFn: () => client ? client.ask({
       collection: args.collection,
@@ -319,11 +319,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsByBidder: <TData = CollectionBidResponse,>({
+  collectionBidsByBidder: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsByBidderQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsByBidderQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsByBidder({
       bidder: args.bidder,
@@ -333,11 +333,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsByBidderSortedByExpiration: <TData = CollectionBidResponse,>({
+  collectionBidsByBidderSortedByExpiration: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsByBidderSortedByExpiration({
       bidder: args.bidder,
@@ -347,11 +347,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsSortedByPrice: <TData = CollectionBidResponse,>({
+  collectionBidsSortedByPrice: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsSortedByPrice({
       collection: args.collection,
@@ -361,11 +361,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  reverseCollectionBidsSortedByPrice: <TData = CollectionBidResponse,>({
+  reverseCollectionBidsSortedByPrice: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args),
     queryFn: () => client ? client.reverseCollectionBidsSortedByPrice({
       collection: args.collection,
@@ -452,19 +452,19 @@ export function useMarketplaceAskHooksQuery<TData = HooksResponse>({
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceReverseCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceReverseCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
   };
 }
-export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = CollectionBidResponse>({
+export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.reverseCollectionBidsSortedByPrice({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.reverseCollectionBidsSortedByPrice({
     collection: args.collection,
     limit: args.limit,
     startBefore: args.startBefore
@@ -472,19 +472,19 @@ export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = Co
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
   };
 }
-export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsSortedByPriceQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.collectionBidsSortedByPrice({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.collectionBidsSortedByPrice({
     collection: args.collection,
     limit: args.limit,
     startAfter: args.startAfter
@@ -492,19 +492,19 @@ export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = Collectio
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
   };
 }
-export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args), () => client ? client.collectionBidsByBidderSortedByExpiration({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args), () => client ? client.collectionBidsByBidderSortedByExpiration({
     bidder: args.bidder,
     limit: args.limit,
     startAfter: args.startAfter
@@ -512,19 +512,19 @@ export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TDat
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsByBidderQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsByBidderQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
   };
 }
-export function useMarketplaceCollectionBidsByBidderQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsByBidderQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsByBidderQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args), () => client ? client.collectionBidsByBidder({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args), () => client ? client.collectionBidsByBidder({
     bidder: args.bidder,
     limit: args.limit,
     startAfter: args.startAfter
@@ -798,18 +798,18 @@ export function useMarketplaceAsksQuery<TData = AsksResponse>({
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceAskQuery<TData> extends MarketplaceReactQuery<AsksResponse, TData> {
+export interface MarketplaceAskQuery<TData> extends MarketplaceReactQuery<AskResponse, TData> {
   args: {
     collection: string;
     tokenId: number;
   };
 }
-export function useMarketplaceAskQuery<TData = AsksResponse>({
+export function useMarketplaceAskQuery<TData = AskResponse>({
   client,
   args,
   options
 }: MarketplaceAskQuery<TData>) {
-  return useQuery<AsksResponse, Error, TData>(marketplaceQueryKeys.ask(client?.contractAddress, args), () => client ? client.ask({
+  return useQuery<AskResponse, Error, TData>(marketplaceQueryKeys.ask(client?.contractAddress, args), () => client ? client.ask({
     collection: args.collection,
     tokenId: args.tokenId
   }) : Promise.reject(new Error("Invalid client")), { ...options,
diff --git a/typescript/packages/marketplace-types/src/Marketplace.types.ts b/typescript/packages/marketplace-types/src/Marketplace.types.ts
index 30e8129..25a352d 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.types.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.types.ts
@@ -282,6 +282,9 @@ export interface CollectionBidOffset {
   collection: string;
   price: Uint128;
 }
+export interface AskResponse {
+  ask?: Ask | null;
+}
 export interface AsksResponse {
   asks: Ask[];
 }
@@ -327,6 +330,9 @@ export interface CollectionBid {
   finders_fee_bps?: number | null;
   price: Uint128;
 }
+export interface CollectionBidsResponse {
+  bids: CollectionBid[];
+}
 export interface CollectionsResponse {
   collections: Addr[];
 }
-- 
2.43.0


From ed269428c0621ff530f8e6fe4d02f296ff2fb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 13/15] fix: ask for the balance in the denom that is given

keys:get-balance ignored its --denom flag and always showed the balance in ustars.
---
 .../packages/marketplace-cli/src/commands/keys/get-balance.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts b/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
index 510c5e1..1b16b24 100644
--- a/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
+++ b/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
@@ -21,8 +21,8 @@ export default class KeysGetBalance extends Command {
     const { args, flags } = await this.parse(KeysGetBalance)
 
     const client = await getCosmWasmClient()
-    const DENOM = 'ustars'
-    const balance = await client.getBalance(args.address, DENOM)
+    const denom = flags.denom ?? 'ustars'
+    const balance = await client.getBalance(args.address, denom)
 
     this.log(
       JSON.stringify(
-- 
2.43.0


From 21784bd0933a60e8e855072064f7ce940314747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 14/15] fix: look at the collection of an auction before
 skipping its token

schedule-end-auction compares the tokens to be auctioned with every auction of the
seller, and skipped a token when the seller auctions the same number of another
collection.
---
 .../src/commands/reserve-auction/schedule-end-auction.ts      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts b/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
index f02f481..063dab6 100644
--- a/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
+++ b/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
@@ -120,7 +120,9 @@ export default class ReserveAuctionScheduleEndAuction extends Command {
     for (const tokenId of tokenIds) {
       let auctionExists = _.some(
         auctions,
-        (auction) => auction.token_id === tokenId,
+        (auction) =>
+          auction.collection === args['collection-address'] &&
+          auction.token_id === tokenId,
       )
       if (auctionExists) {
         logger(`Auction for ${tokenId} already exists...`)
-- 
2.43.0


From e1095d9a025e33a85ccbe5d7276b0915da179cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 15/15] fix: show balances in the unit they are labelled with

The amount was divided by a million but labelled with the denom of the raw amount:
5000000ustars was shown as 5ustars.
---
 .../marketplace-cli/src/commands/keys/get-balance.ts         | 3 +--
 .../packages/marketplace-cli/src/commands/keys/list.ts       | 5 +----
 .../marketplace-cli/src/lib/cosmos/cosmWasmClient.ts         | 3 +--
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts b/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
index 1b16b24..846d096 100644
--- a/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
+++ b/typescript/packages/marketplace-cli/src/commands/keys/get-balance.ts
@@ -1,6 +1,5 @@
 import { Command, Flags } from '@oclif/core'
 import { getCosmWasmClient } from '../../lib/cosmos/cosmWasmClient'
-import { fromRawAmount } from '../../lib/cosmos/unitConversions'
 
 export default class KeysGetBalance extends Command {
   static description = 'gets the balance of an address'
@@ -28,7 +27,7 @@ export default class KeysGetBalance extends Command {
       JSON.stringify(
         {
           address: args.address,
-          balance: fromRawAmount(balance.amount) + balance.denom,
+          balance: balance.amount + balance.denom,
         },
         null,
         2,
diff --git a/typescript/packages/marketplace-cli/src/commands/keys/list.ts b/typescript/packages/marketplace-cli/src/commands/keys/list.ts
index 519c5ab..67b781d 100644
--- a/typescript/packages/marketplace-cli/src/commands/keys/list.ts
+++ b/typescript/packages/marketplace-cli/src/commands/keys/list.ts
@@ -2,7 +2,6 @@ import { Command, Flags } from '@oclif/core'
 import { DirectSecp256k1HdWallet } from '@cosmjs/proto-signing'
 import storage, { STORAGE_MAP } from '../../lib/confStorage'
 import { getCosmWasmClient } from '../../lib/cosmos/cosmWasmClient'
-import { fromRawAmount } from '../../lib/cosmos/unitConversions'
 import _ from 'lodash'
 
 export default class KeysList extends Command {
@@ -25,9 +24,7 @@ export default class KeysList extends Command {
         })
         const [firstAccount] = await wallet.getAccounts()
         const balance = await client.getBalance(firstAccount.address, DENOM)
-        return `${key}: ${firstAccount.address} ${fromRawAmount(
-          balance.amount,
-        )}${balance.denom}`
+        return `${key}: ${firstAccount.address} ${balance.amount}${balance.denom}`
       }),
     )
 
diff --git a/typescript/packages/marketplace-cli/src/lib/cosmos/cosmWasmClient.ts b/typescript/packages/marketplace-cli/src/lib/cosmos/cosmWasmClient.ts
index 56a0d0d..70fd11c 100644
--- a/typescript/packages/marketplace-cli/src/lib/cosmos/cosmWasmClient.ts
+++ b/typescript/packages/marketplace-cli/src/lib/cosmos/cosmWasmClient.ts
@@ -7,7 +7,6 @@ import { Coin, DirectSecp256k1HdWallet } from '@cosmjs/proto-signing'
 import { GasPrice } from '@cosmjs/stargate'
 import storage, { STORAGE_MAP, StringMap } from '../confStorage'
 import { isValidHttpUrl } from '../helpers/httpUrl'
-import { fromRawAmount } from './unitConversions'
 
 export const getCosmWasmClient = async () => {
   const uri = storage.get(STORAGE_MAP.NODE) as string
@@ -65,7 +64,7 @@ Client
 --------
 network: ${network}
 address: ${address}
-balance: ${fromRawAmount(balance.amount)}${balance.denom}
+balance: ${balance.amount}${balance.denom}
 `)
 
   return { address, client, balance }
-- 
2.43.0

