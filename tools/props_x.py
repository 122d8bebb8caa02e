from meta import P, V, R, M, C
NA = []
QT = "path-sensitive dataflow of the queries over the compiled MIR; a page is read as range, filter, limit and projection"
QN = ("the storage layout (key and index components) is extracted from the program; a page is the range a query walks (index, prefix, bounds, direction), "
      "the filter decided by case enumeration, the limit and the projection; or an explicit loop with the same effect; cw-storage-plus follows its documented contract")
QW = "the tests read a first page or two of small books in a few orders, with few cursors"
FX = ["inputs", "histories"]

P("M14", "Marketplace listings are complete, ordered and continue after the cursor",
  "Each listing of asks, bids and collection bids returns exactly the stored records with the requested collection, token, seller or bidder (asks: only active ones unless inactive ones are asked for), in the documented order (by token, price, expiry second or collection) and direction, "
  "from the first record, or with a cursor from the first one past it (the expiry listings: past the cursor's stored bid), the requested number of them, capped by a fixed maximum. "
  "Collections lists each collection with asks once, in order, from the start or after the given one.",
  FX, "for every listing query, book, filter, cursor and limit", QW, [M + "query.rs", M + "state.rs"],
  [("listings", M + "query.rs: query_asks, query_bids, query_collection_bids_*"), ("collections", M + "query.rs: query_collections"), ("indexes", M + "state.rs: AskIndicies, BidIndicies, CollectionBidIndicies")],
  [("asks, bids, collection bids", "stored orders and their indexes", M + "state.rs")], QT, QN)
P("M15", "Marketplace lookups answer the stored record",
  "Ask, Bid and CollectionBid answer the record stored under the given collection, token and bidder, or none; AskCount the number of stored asks of the collection; Params the stored parameters; the hook queries the registered hooks of that kind.",
  FX, "for every lookup query and stored state", QW, [M + "query.rs"], [("lookups", M + "query.rs: query_ask, query_bid, query_collection_bid, query_ask_count, query_params")], None, QT, QN)
P("R13", "Auction listings are complete, ordered and continue after the cursor",
  "AuctionsBySeller returns the seller's auctions by collection and token, AuctionsByEndTime the auctions with an end time from the given second on (descending: down from it) by end time, collection and token, MinReservePrices each denomination's minimum by denomination; "
  "in the requested direction, from the start or past the cursor, the requested number of them, capped by a fixed maximum.",
  FX, "for every listing query, set of auctions, cursor, direction and limit", QW, [R + "query.rs", R + "state.rs"],
  [("listings", R + "query.rs: query_auctions_by_seller, query_auctions_by_end_time, query_min_reserve_prices"), ("indexes", R + "state.rs: AuctionIndexes")], [("auctions", "running auctions", R + "state.rs")], QT, QN)
P("R14", "Auction lookups answer the stored record",
  "Auction answers the auction stored for the given collection and token, or none; Config and HaltManager answer the stored configuration and halt windows.",
  FX, "for every lookup query and stored state", QW, [R + "query.rs"], [("lookups", R + "query.rs: query_auction, query_config, query_halt_manager")], None, QT, QN)
P("V14", "Marketplace v2 listings are complete, ordered and bounded as asked",
  "AsksByCollectionDenom and CollectionBidsByPrice return the orders of the collection in the denomination, BidsByTokenPrice those of the token in the denomination, by price amount and id; the *ByCreatorCollection listings the creator's orders in the collection by id; "
  "in the requested direction, within the requested minimum and maximum bounds, the requested number of them, capped by a fixed maximum.",
  FX, "for every listing query, order book, bounds, direction and limit", QW, [V + "query.rs", V + "state.rs"],
  [("listings", V + "query.rs: query_asks_by_collection_denom, query_bids_by_token_price, ..."), ("indexes", V + "state.rs: AskIndices, BidIndices, CollectionBidIndices")], [("asks, bids, collection bids", "the order book, by order id", V + "orders.rs")], QT, QN)
P("V15", "Marketplace v2 lookups answer the stored orders",
  "Ask, Bid and CollectionBid answer the order stored under the given id, or none; Asks, Bids and CollectionBids the stored ones among the given ids, in that order; CollectionDenom the currency set for the collection; Config the stored configuration.",
  FX, "for every lookup query and stored state", QW, [V + "query.rs"], [("lookups", V + "query.rs: query_ask, query_asks, query_bid, query_bids, ...")], None, QT, QN)

TT = "enumeration of the panicking paths of every entry point over the compiled MIR; each must contradict the facts of its path"
TN = ("panics are unwraps and expects of missing values, indexing and removal out of bounds, differences below zero, divisions by zero and arms that panic; sums and products are taken to fit their types; "
      "facts used: the path's own conditions with common terms cancelled, the limits of the settings (M13, V12), fields that are set together (R rules), block time not going back")
TW = "the tests take the few paths that succeed or are refused as planned; the missing value needs a combination of answers, records and settings no test sets up"
P("M16", "No request makes the marketplace panic: every refusal is an error",
  "No message, query, sudo call, reply to a hook, or migration of the marketplace can make it panic, whatever is stored and whatever other contracts answer: every unwrap is of a value that is there, no amount is subtracted below zero, and what cannot be done is refused with an error "
  "(sums and products that exceed their type aside).",
  FX, "for every entry point, message, stored state and answer of a queried contract", TW, [M + "execute.rs", M + "helpers.rs", M + "hooks.rs", M + "query.rs", M + "sudo.rs"],
  [("payout", M + "execute.rs: payout, execute_remove_stale_bid"), ("replies", M + "execute.rs: reply, HookReply")], None, TT, TN)
P("R15", "No request makes the auction house panic: every refusal is an error",
  "No message, query, sudo call or migration of the auction house can make it panic, whatever is stored and whatever other contracts answer: every unwrap is of a value that is there, no amount or time is subtracted below zero, and what cannot be done is refused with an error "
  "(sums and products that exceed their type aside).",
  FX, "for every entry point, message, stored state and answer of a queried contract", TW, [R + "execute.rs", R + "helpers.rs", R + "sudo.rs", R + "state.rs", R + "query.rs", C + "nft.rs"],
  [("bids and settlement", R + "execute.rs: execute_place_bid; helpers.rs: settle_auction"), ("halt windows", R + "state.rs: HaltManager")], None, TT, TN)
P("V16", "No request makes marketplace v2 panic: every refusal is an error",
  "No message, query or migration of marketplace v2 can make it panic, whatever is stored and whatever other contracts answer: every unwrap is of a value that is there, no fee is subtracted below zero, and what cannot be done is refused with an error "
  "(sums and products that exceed their type aside).",
  FX, "for every entry point, message, stored state and answer of a queried contract", TW, [V + "execute.rs", V + "helpers.rs", V + "orders.rs", V + "query.rs", C + "royalties.rs", C + "sale.rs"],
  [("fees", V + "helpers.rs: divide_protocol_fees, finalize_sale"), ("royalties", C + "royalties.rs: fetch_or_set_royalties")], None, TT, TN)

ET = "enumeration of every success path over the compiled MIR; its events compared with the records it writes or deletes and the payments it makes"
EN = ("attribute values are compared as terms of the compiled program (a number and its decimal text are one); the order of attributes and events and attributes beyond those named are free; "
      "events of the contracts called (token, fair burn, registry) are not this contract's")
EW = "the tests look at balances and queries; the events indexers rebuild the books from are hardly asserted, and never for every combination of options"
P("M17", "The marketplace's events tell what happened",
  "Each successful operation of the marketplace announces exactly the events that belong to it, with the true values: set-ask, update-ask, update-ask-state, remove-ask, set-bid, remove-bid, accept-bid, reject-bid, set-collection-bid, remove-collection-bid, "
  "accept-collection-bid, remove-stale-bid and remove-stale-collection-bid name the collection, token, parties, price, expiry and reward as stored or paid; every sale, and nothing else, announces one finalize-sale with its token, seller, buyer, price and recipient, "
  "and every royalty paid one royalty-payout with its amount and recipient.",
  FX, "for every executed operation, message, stored state and answer of a queried contract", EW, [M + "execute.rs"],
  [("sale events", M + "execute.rs: finalize_sale, payout"), ("order events", M + "execute.rs: execute_set_ask, execute_set_bid, execute_remove_stale_bid, ...")], None, ET, EN)
P("R16", "The auction house's events tell what happened",
  "Each successful operation of the auction house announces exactly the events that belong to it, with the true values: create-auction, update-reserve-price, cancel-auction, place-bid (bidder, amount, whether it is the first, the end time, and the bid it displaces), "
  "postpone-auction, settle-auction (seller, bidder, amount and denomination), set- and unset-min-reserve-price, halt-detected with the recorded window, sudo-update-params with exactly the settings changed, and the settings at instantiation.",
  FX, "for every operation, message, stored state and answer of a queried contract", EW, [R + "execute.rs", R + "helpers.rs", R + "sudo.rs", R + "instantiate.rs"],
  [("bid events", R + "execute.rs: execute_place_bid"), ("settlement events", R + "helpers.rs: settle_auction"), ("settings", R + "sudo.rs: sudo_update_params")], None, ET, EN)
P("V17", "Marketplace v2's events tell what happened",
  "Each successful operation of marketplace v2 announces exactly the event that belongs to it, with the true values: set-, update- and remove-ask, -bid and -collection-bid with the order's id, collection, token, and (where the order stays) price, recipient and finder as stored; "
  "one finalize-sale per sale with its token, price, denomination, recipients, the ids of both orders and each share of the price as paid (protocol, maker, taker, royalty, seller); set-config, set-collection-denom, set- and remove-listing-fee with the setting stored.",
  FX, "for every operation, message, stored state and answer of a queried contract", EW, [V + "execute.rs", V + "events.rs", V + "orders.rs", V + "helpers.rs"],
  [("order events", V + "events.rs: AskEvent, BidEvent, CollectionBidEvent; orders.rs: get_event_attrs"), ("sale event", V + "helpers.rs: finalize_sale")], None, ET, EN)

UT = "storage layout, key functions and record types extracted from the compiled program and compared with the published form; every path of migrate"
UN = ("the published form (rules/published.json) is what the base commit stores; records may gain optional fields; the contract name and version strings are literals of the program; "
      "serde renames inside records are not read: types, field names and variants are")
UW = "every test starts from an empty chain: none reads what an earlier version wrote, and migrate is hardly called"
PUBST = [("stored data", "namespaces, keys, record forms and indexes of the deployed contracts", "published form in the property's check")]
P("M18", "Marketplace upgrades keep everything that is stored",
  "Instantiation records the contract's name and version. Migrating the marketplace succeeds exactly from the same contract in the same or an older version, records at most the new version and changes, deletes or sends nothing else. "
  "The code reads settings, asks, bids, collection bids, hooks and their indexes in the places, under the keys and in the form earlier versions wrote them; no two of them share a place, and every index belongs to its records and is kept up to date.",
  FX, "for every migration and stored state", UW, [M + "execute.rs", M + "state.rs"],
  [("migrate", M + "execute.rs: migrate"), ("storage layout", M + "state.rs: SUDO_PARAMS, asks, bids, collection_bids, AskIndicies, BidIndicies")], PUBST, UT, UN)
P("R17", "Auction house upgrades keep everything that is stored",
  "Instantiation records the contract's name and version. Migrating the auction house always succeeds, records the new version and changes, deletes or sends nothing else. "
  "The code reads the configuration, halt windows, minimum reserve prices, auctions and their indexes in the places, under the keys and in the form earlier versions wrote them; no two of them share a place, and every index belongs to its records and is kept up to date.",
  FX, "for every migration and stored state", UW, [R + "migrate.rs", R + "state.rs"],
  [("migrate", R + "migrate.rs: migrate"), ("storage layout", R + "state.rs: CONFIG, HALT_MANAGER, MIN_RESERVE_PRICES, auctions, AuctionIndexes")], PUBST, UT, UN)
P("V18", "Marketplace v2 upgrades keep everything that is stored",
  "Instantiation records the contract's name and version. Migrating marketplace v2 always succeeds, records the new version and changes, deletes or sends nothing else. "
  "The code reads the configuration, nonce, listing fees, collection currencies, asks, bids, collection bids and their indexes in the places, under the keys and in the form earlier versions wrote them; no two of them share a place, and every index belongs to its records and is kept up to date.",
  FX, "for every migration and stored state", UW, [V + "migrate.rs", V + "state.rs"],
  [("migrate", V + "migrate.rs: migrate"), ("storage layout", V + "state.rs: CONFIG, NONCE, asks, bids, collection_bids, AskIndices, BidIndices, CollectionBidIndices")], PUBST, UT, UN)

IT = "the JSON forms the compiled serializers write and deserializers read, extracted from their bodies, compared with the published ones; answer types per query path"
IN = ("the published forms (rules/published.json) are those of the base commit; optional request fields, answer fields and choices may be added; forms of platform types (Coin, Timestamp, ...) are taken by name; "
      "the type of an answer is read at the call that serialises it, the promised one in the compiled schema list")
IW = "the tests build messages and read answers with the same Rust types as the contract, so they follow any change of the JSON clients see"
PUBIF = [("interface", "JSON form of messages, answers and notifications clients were built against", "published form in the property's check")]
for pid, who, base, more, extra in (
        ("M19", "Marketplace", M, "and the notifications sent to ask, bid, collection bid and sale hooks ", [("notifications", M + "msg.rs: AskHookMsg, BidHookMsg, CollectionBidHookMsg, SaleHookMsg")]),
        ("R18", "Auction house", R, "", []),
        ("V19", "Marketplace v2", V, "", [("orders", V + "orders.rs: Ask, Bid, CollectionBid, OrderDetails")])):
    P(pid, who + " clients keep working: messages and answers keep their form",
      "Every message that could be sent to the contract before (instantiation, execution, query%s, migration) is still understood: same name, same fields, same meaning of each field's JSON, and no new field is required. "
      "Every query%s still carries the fields clients read, under the same names and in the same form, and is of the type the published schema (QueryResponses) names for it." % ("" if base == V else ", sudo", " answer " + more if more else " answer"),
      FX, "for every message, query and answer", IW, [base + "msg.rs", base + "state.rs", base + "query.rs"],
      [("messages", base + "msg.rs: InstantiateMsg, ExecuteMsg, QueryMsg" + ("" if base == V else ", SudoMsg")), ("answers", base + "query.rs: query")] + extra, PUBIF, IT, IN)

RT = "every refusing path of every operation over the compiled MIR: its facts must imply one of the reasons the operation has for refusing (rules/refuse.py)"
RN = ("an outcome that refuses keeps the facts established before it; a reason counts only if those facts imply it, with values exactly at a limit on the permitted side; panics are the business of M16, R15 and V16; "
      "an answer of a token contract or registry that is an error is a reason; stored data that does not decode is one too")
RW = "the tests provoke each error once, far from its limit, and never ask whether an operation that is permitted can fail"
P("M20", "The marketplace refuses an operation only for a reason it has",
  "An operation that is permitted is never refused; values exactly at a limit are permitted. Anybody may bid, buy and bid on collections with native funds of at least the minimum price, an expiry more than the minimum and at most the maximum away, and a finder's fee up to the maximum, finder not himself; "
  "on a listed token only if the listing is active, unexpired and not reserved for another, at up to the fixed price (at the price it is a sale), at least the auction price, and BuyNow and BuyFor only if listed. An owner may list a tradable, approved token for a native price from the minimum up to the cap with exactly the listing fee (none if it is zero), "
  "reprice an active unexpired listing, withdraw a listing, accept an unexpired bid and reject any bid; a bidder may withdraw. An operator may synchronise a listing whose activity is not what the approval says, remove listings that are expired, not approved or of a vanished token, and bids from the stale period after expiry on. "
  "A sale fails only if fee, finder's fee and royalty exceed the price or the collection does not answer. Besides, only invalid addresses, funds where none are taken, missing orders and a foreign sender refuse. Governance may set rates up to 100% and expiry ranges with min ≤ max, add hooks and operators not there yet and remove those that are.",
  FX, "for every operation, message, stored state and answer of a queried contract", RW, [M + "execute.rs", M + "sudo.rs", M + "helpers.rs"],
  [("order checks", M + "execute.rs: execute_set_ask, execute_set_bid, execute_set_collection_bid, price_validate, only_tradable, only_owner"), ("limits", M + "helpers.rs: ExpiryRange::is_valid; sudo.rs: sudo_update_params")], None, RT, RN)
P("R19", "The auction house refuses an operation only for a reason it has",
  "An operation that is permitted is never refused; values exactly at a limit are permitted. An owner may auction a tradable, approved token that is not auctioned yet for a reserve price of at least the currency's minimum, a duration from the minimum to the maximum, and exactly the creation fee (nothing if it is zero). "
  "Anybody but the seller may bid, before the end, one coin of the auction's currency of at least the reserve price, or of at least the high bid raised by the increment, rounded up. The seller may cancel or reprice (to at least the minimum) an auction without bids. Anybody may settle an auction from its end time on, "
  "which fails only if the trading fee and royalty (rounded up) exceed the price, the collection does not answer or names an invalid payment address. Besides, only invalid addresses, funds where none are taken, a missing auction and a foreign sender refuse. "
  "Governance may set an increment above 0 and below 100% and any non-zero durations, set minimum prices for currencies without one and unset those that have one.",
  FX, "for every operation, message, stored state and answer of a queried contract", RW, [R + "execute.rs", R + "helpers.rs", R + "sudo.rs", R + "state.rs"],
  [("auction checks", R + "execute.rs: execute_create_auction, execute_place_bid, execute_cancel_auction, execute_update_reserve_price"), ("settlement", R + "helpers.rs: settle_auction"), ("settings", R + "state.rs: Config::validate; sudo.rs")], None, RT, RN)
P("V20", "Marketplace v2 refuses an operation only for a reason it has",
  "An operation that is permitted is never refused; values exactly at a limit are permitted. Orders on tradable collections are accepted at any price above zero in the collection's (or else the default) currency: listings from the token's owner with exactly one coin equal to that currency's listing fee, bids with funds that contain the price "
  "(of the listing bought, or of the bid that rests; an update counts the escrow). SellNft, BuySpecificNft and BuyCollectionNft fail for want of a match only if no resting order satisfies them. A creator may update and withdraw his orders. AcceptAsk works for anybody whose limit is at least the listing's price in its currency and whose funds contain it; "
  "AcceptBid and AcceptCollectionBid for the lister of the token, or its owner if it is not listed, whose least price is at most the bid's. A sale fails only if its shares (rounded up) exceed the price, the royalty registry fails or the collection names an invalid payment address. "
  "Besides, only invalid addresses, funds where none are taken, missing orders, a foreign sender and a token that is listed already refuse. The administrator may set any protocol fee below 100% and rewards below 100% combined, any currency and any listing fee.",
  FX, "for every operation, message, stored state and answer of a queried contract", RW, [V + "execute.rs", V + "helpers.rs", V + "state.rs", V + "orders.rs"],
  [("order checks", V + "execute.rs; helpers.rs: only_valid_price, only_contract_admin"), ("limits", V + "orders.rs: match_with_ask, match_with_bid; state.rs: Config::save")], None, RT, RN)
