from meta import P, R
EX, ST, SU, HE = R + "execute.rs", R + "state.rs", R + "sudo.rs", R + "helpers.rs"
W = "the 21 unit tests run a few auctions with fixed prices, times and one collection"

P("R01", "The auction house holds exactly the high bids of its open auctions",
  "In every call, the coins attached plus the high bids the call releases equal, per denomination, the coins it pays out plus the high bids it stores; nothing else is kept, so surplus or foreign coins are never stranded and one auction's money never pays for another.",
  ["inputs", "histories"], "for every message, attached funds, denomination and stored state", W + "; none checks the balance of the contract", [EX, HE],
  [("bids", EX + ": execute_place_bid"), ("fee", EX + ": execute_create_auction"), ("settlement", HE + ": settle_auction")], [("auctions", "open auctions with their high bid", ST)])
P("R02", "The auctioned token is in custody exactly while its auction is open",
  "Creating an auction takes the token from its owner into the contract in the same call and refuses a token that already has one; closing an auction hands that token out exactly once, to the high bidder if it is settled or to the seller if it is cancelled. "
  "No other call moves a token, and failing transfers revert the call.",
  ["inputs", "histories"], "for every message and stored state", W, [EX, HE], [("custody", EX + ": execute_create_auction, execute_cancel_auction"), ("hand-over", HE + ": settle_auction")])
P("R03", "A bid counts only if it comes in time and beats the current one",
  "A bid is accepted only before the auction's end, from somebody other than the seller, in the auction's currency, with exactly one coin of at least the reserve price or, once there is a bid, at least that bid raised by the configured minimum percentage (rounded up). "
  "The stored high bid is exactly the attached coin and its sender.",
  ["inputs", "histories"], "for every bid, bidder, price and block time", W, [EX, ST], [("bid", EX + ": execute_place_bid"), ("minimum", ST + ": min_bid_coin")])
P("R04", "An outbid bidder gets his money back in the same call",
  "When a bid replaces a previous one, the previous bidder is paid exactly the previous bid in the same call and that payment cannot fail silently; a first bid pays nobody.",
  ["inputs", "histories"], "for every bid on every auction state", W, [EX], [("refund", EX + ": execute_place_bid")])
P("R05", "The first bid starts the clock and late bids only extend it",
  "The first bid sets the end to the block time plus the auction's duration; a later bid leaves the end unchanged unless less than the configured extension remains, in which case the end becomes the block time plus the extension. "
  "A bid never moves the end earlier, and the first bid time, seller, reserve price and other terms never change.",
  ["inputs", "histories"], "for every sequence of bids and block times", W, [EX], [("clock", EX + ": execute_place_bid")])
P("R06", "Settlement pays fee, royalty and seller from the high bid and delivers the token",
  "An auction is settled only after its end and only with a bid: the configured trading fee goes to the fee contract, the collection's royalty share to its payment address, everything else to the seller's funds recipient (or the seller), and the token to the high bidder; the auction is deleted. "
  "Every payment and the transfer are part of the same call, so that none can fail alone.",
  ["inputs", "histories", "configurations"], "for every auction, royalty and fee setting", W, [HE], [("settlement", HE + ": settle_auction")])
P("R07", "Only the seller changes or cancels an auction, and only before the first bid",
  "The reserve price can be changed and the auction cancelled only by its seller, without funds, while there is no bid; changing stores the new price (in an accepted currency and at least its minimum) and nothing else, cancelling deletes the auction and returns the token.",
  ["inputs", "histories"], "for every caller and auction state", W, [EX], [("seller rights", EX + ": execute_update_reserve_price, execute_cancel_auction")])
P("R08", "An auction starts only within the rules and exactly as asked for",
  "An auction is created only by the owner of the token with the contract approved, in a trading collection, with a reserve price in an accepted currency at or above that currency's minimum, a duration within the configured range and exactly the configured creation fee attached, which is passed on to the fee contract. "
  "What is stored is what was asked for, with the caller as seller, no bid and no end.",
  ["inputs", "configurations"], "for every creation request, configuration and attached funds", W, [EX, HE], [("creation", EX + ": execute_create_auction"), ("minimum price", HE + ": validate_reserve_price")])
P("R09", "The end of each block settles the auctions that have ended, oldest first",
  "At the end of a block the contract handles, in order of their end and up to the configured number, every auction whose end has been reached and no other; each of them is settled or, after a chain halt, postponed. "
  "An auction that has not ended never makes the sweep fail.",
  ["inputs", "histories", "configurations"], "for every set of stored auctions, block time and limit", W + " at whole-second block times", [SU], [("sweep", SU + ": sudo_end_block")])
P("R10", "Auctions that end during a chain halt are postponed, never settled",
  "A gap between blocks of at least the configured threshold is recorded as a halt from the last block before it until the configured buffer after it, exactly then. "
  "An auction ending inside a recorded halt is not settled but gets the block time plus the configured postponement as new end with everything else unchanged, other auctions are not postponed, and a halt is forgotten only when no auction can still end, or is still waiting, inside it.",
  ["histories", "configurations", "fault_sequences"], "for every sequence of blocks, halts and auctions", W + " with one halt", [SU, HE, ST], [("halt detection", SU + ": sudo_begin_block"), ("postponement", HE + ": settle_auction"), ("forgetting", ST + ": find_stale_halt_info")])
P("R11", "Auction house configuration changes only by governance, field by field",
  "Only instantiation and governance write the configuration; an update changes exactly the named settings to the given values and never stores a bid increment outside 0-100% or a zero minimum duration or extension. "
  "Operations of users change only the auction they name, and queries change nothing.",
  ["inputs", "configurations"], "for every message and stored configuration", W, [SU, R + "instantiate.rs", ST], [("update", SU + ": sudo_update_params"), ("validation", ST + ": Config::validate")])
P("R12", "Governance alone decides which currencies are accepted at which minimum",
  "Setting minimum reserve prices makes exactly the listed currencies accepted at exactly the given amounts, unsetting removes exactly the listed ones, and no other call changes the accepted currencies.",
  ["inputs"], "for every governance message and prior state", W, [SU], [("currencies", SU + ": sudo_set_min_reserve_prices, sudo_unset_min_reserve_prices")])
