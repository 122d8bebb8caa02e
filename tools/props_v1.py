from meta import P, M, mech
EX, ST, SU = M + "execute.rs", M + "state.rs", M + "sudo.rs"
W1 = "the 55 unit tests run single hand-picked orders and prices; they do not cover every combination of order kind, fee, finder, royalty and prior state"

P("M01", "Marketplace pays out exactly what it holds for the orders it settles",
  "In every call to the marketplace, the native tokens attached plus the escrow of every bid the call deletes equal the tokens the call pays out (to anybody, fees and burns included) plus the escrow of every bid it stores. "
  "Consequently the contract always holds exactly the sum of its stored bids and never spends one bidder's escrow on another order.",
  ["inputs", "histories"], "for every message, sender, attached funds, stored state and royalty setting",
  W1 + "; none compares the whole flow of money of a call", [EX],
  [("escrow on SetBid / SetCollectionBid", EX + ": execute_set_bid, execute_set_collection_bid"), ("payout of a sale", EX + ": finalize_sale, payout"), ("refunds", EX + ": execute_remove_bid, execute_reject_bid, execute_remove_stale_bid")],
  [("bids", "token bids with the escrowed price", ST), ("collection bids", "collection bids with the escrowed price", ST)])
P("M02", "Deleted bids are refunded in full to their bidder, less only the sweep reward",
  "Whenever a bid is deleted without being the bid that is sold to (withdrawn, replaced by a new bid of the same bidder, rejected by the owner, or swept as stale), its whole escrow is paid to the bidder who placed it. "
  "Only sweeping a stale bid may deduct the configured removal reward, which is the configured fraction of that bid and goes to the operator who swept it.",
  ["inputs", "histories"], "for every deletion of a stored bid in every call", W1, [EX],
  [("refund to the bidder", EX + ": execute_remove_bid, execute_set_bid, execute_set_collection_bid, execute_reject_bid"), ("removal reward", EX + ": execute_remove_stale_bid, execute_remove_stale_collection_bid")])
P("M03", "A sale splits the price into fee, royalty, finder's fee and seller's share",
  "Every sale distributes exactly the sale price: the configured trading fee is burned/distributed, the collection's royalty recipient gets the royalty share the collection reports (if any), the named finder gets the agreed finder's fee, and the seller's side gets everything that is left. "
  "The seller's share of a sale at a listing goes to the listing's funds recipient if one was set, otherwise to its seller; that of an accepted bid goes to the owner who accepted it. Each share is computed from the full sale price.",
  ["inputs", "configurations"], "for every sale through any of the order and accept messages, all prices, fee settings and royalty settings",
  "tests check a handful of prices; rounding and the combinations of absent finder, royalty and recipient are not enumerated", [EX],
  [("payout", EX + ": payout"), ("funds recipient", EX + ": finalize_sale")])
P("M04", "The token changes hands exactly when a sale is settled, to the buyer, once",
  "A token is transferred only by a sale, exactly once, to the buyer of that sale (the recipient named in a buy-for order), together with its payment, and a failing transfer or payment undoes the sale. "
  "The sale deletes the listing of the token and the bid it consumes, touches no other order, and no call moves a token or pays sale proceeds otherwise.",
  ["inputs", "histories"], "for every call and every stored state", W1 + "; atomicity of payment, transfer and clean-up is never checked together", [EX],
  [("sale", EX + ": finalize_sale"), ("consumed orders", EX + ": execute_set_bid, execute_accept_bid, execute_accept_collection_bid")])
P("M05", "Orders on a listing trade at its price, or not at all",
  "An order on a token listed at a fixed price is settled at once exactly if the attached amount equals that price and the lister still owns the token; less is stored as a bid, more is rejected, and on an auction listing less than its price is rejected. "
  "Any order on a listing that is inactive, expired or reserved for another account is rejected, and so is buying a token that is not listed.",
  ["inputs", "histories"], "for every order message, listing state, block time and payment", W1, [EX],
  [("matching", EX + ": execute_set_bid")])
P("M06", "Only the token's owner can accept a bid, and only one that exists and is live",
  "Accepting a token bid or a collection bid succeeds only if the caller owns the token, the named bid exists and has not expired, the collection has started trading and no funds are attached.",
  ["inputs", "histories"], "for every caller, bid, listing and block time", W1, [EX],
  [("accept", EX + ": execute_accept_bid, execute_accept_collection_bid")])
P("M07", "A listing is created only by the approved owner within the configured limits",
  "A listing is stored only if the caller owns the token, the marketplace is approved for it, the collection is trading, the price is in the native token between the configured minimum and maximum, the expiry lies in the configured range, the finder's fee does not exceed the maximum, the listing fee is paid exactly, and any reservation is for somebody else on a fixed-price listing. "
  "What is stored is exactly what was asked for, active, under that token, with the caller as seller.",
  ["inputs", "configurations"], "for every listing request, configuration and block time", W1, [EX, ST],
  [("creation", EX + ": execute_set_ask"), ("price limits", EX + ": price_validate"), ("expiry range", M + "helpers.rs: ExpiryRange::is_valid")])
P("M08", "A bid is stored only within the configured limits and exactly as placed",
  "A token or collection bid is accepted only if paid in the native token at or above the minimum price, with the finder's fee within the maximum, an expiry in the configured range and a finder other than the bidder. "
  "What is stored is the attached amount as price with the caller as bidder and the terms asked for, under that token or collection and bidder, and no other bid or listing changes.",
  ["inputs", "configurations"], "for every order, configuration and block time", W1, [EX],
  [("orders", EX + ": execute_set_bid, execute_set_collection_bid"), ("storage", EX + ": store_bid")])
P("M09", "Each operation has its own authority and changes only the records it is about",
  "Listings can be created, repriced and removed, bids accepted and rejected only by the owner of the token, bids withdrawn only by their bidder, and stale records swept and listings synchronised only by operators. "
  "A user operation never changes configuration or subscribers, and never changes a record of another token, collection or bidder than the one it names; instantiation, replies and queries never touch orders.",
  ["inputs", "histories"], "for every message, sender and stored state", W1 + "; negative authority cases exist only for a few messages", [EX],
  [("owner check", EX + ": only_owner"), ("operator check", EX + ": only_operator")])
P("M10", "Listings are repriced, synchronised, removed and swept only when that is due",
  "Repricing an active, unexpired listing changes only its price, within the same limits as creation; synchronising sets a listing's activity to whether the marketplace is still approved for the token; removing deletes exactly that listing. "
  "An operator can sweep a listing if and only if it is expired, its token no longer exists or the approval is gone, and a bid only after its expiry plus the stale period.",
  ["inputs", "histories"], "for every listing and bid state, approval state and block time", W1, [EX],
  [("reprice", EX + ": execute_update_ask_price"), ("sync", EX + ": execute_sync_ask"), ("sweep", EX + ": execute_remove_stale_ask, execute_remove_stale_bid, execute_remove_stale_collection_bid")])
P("M11", "A bidder can always withdraw his bid and an owner his listing",
  "Withdrawing a stored bid succeeds for its bidder, and removing a stored listing succeeds for the token's owner, whatever the bid's or listing's expiry, the collection's trading time, the configuration or other orders; only a missing record, a foreign caller or attached funds make it fail.",
  ["inputs", "histories"], "for every stored bid or listing and every configuration and time", "tests withdraw fresh bids only; they cannot show that no state blocks the exit", [EX],
  [("withdrawal", EX + ": execute_remove_bid, execute_remove_collection_bid, execute_remove_ask")])
P("M12", "Subscribers hear of every change exactly once and can never revert it",
  "Every creation and change of a listing or bid, every removal of one other than by a sale or by the bidder's new order, and every sale notifies each subscriber of that kind exactly once, with the matching action and the content of the record, and nothing else is notified. "
  "Notifications carry no funds and are sent so that a failing subscriber neither reverts the operation nor changes state: each failure is reported to a handler that recognises it, always succeeds and does nothing but report it.",
  ["inputs", "fault_sequences"], "for every operation, every set of subscribers and every failure of a subscriber", "tests install one subscriber that succeeds or is missing; content and completeness of notifications is not checked", [EX, M + "hooks.rs"],
  [("notifications", EX + ": prepare_ask_hook, prepare_bid_hook, prepare_collection_bid_hook, prepare_sale_hook"), ("failure handler", EX + ": reply")])
P("M13", "Governance changes exactly the parameters it names, within their limits",
  "A parameter update changes exactly the named parameters (except the operators, who have messages of their own) to the given values and leaves all others; rates above 100% and expiry ranges with minimum above maximum are never stored. "
  "Adding or removing an operator or subscriber changes exactly that entry, and instantiation stores the given configuration with every address validated.",
  ["inputs", "configurations"], "for every governance message and stored configuration", "tests update one set of values; they do not check that every field is mapped to itself", [SU, EX],
  [("update", SU + ": sudo_update_params"), ("operators", SU + ": sudo_add_operator, sudo_remove_operator"), ("subscribers", SU + ": sudo_add_sale_hook ..."), ("instantiate", EX + ": instantiate")])
