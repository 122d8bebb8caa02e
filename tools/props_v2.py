from meta import P, V, C
EX, OR, HE, ST, MSG, QU = V + "execute.rs", V + "orders.rs", V + "helpers.rs", V + "state.rs", V + "msg.rs", V + "query.rs"
NFT, SALE, ROY, COIN = C + "nft.rs", C + "sale.rs", C + "royalties.rs", C + "coin.rs"
W = "the contract's tests settle a few orders at fixed prices with one currency, fee and royalty setting"
BOOK = [("asks, bids, collection bids", "the order book, by order id", OR)]

P("V01", "Marketplace v2 holds exactly the prices of its resting bids",
  "In every call, the coins attached plus the prices of the bids the call removes or reprices equal, per denomination, the coins it pays out plus the prices of the bids it stores; nothing else stays in the contract or leaves it, and no payment can fail silently.",
  ["inputs", "histories"], "for every message, attached funds, denomination and state of the order book", W + "; none looks at the contract's balance", [EX, HE, OR],
  [("escrow", EX + ": execute_set_bid, execute_update_bid, execute_set_collection_bid"), ("settlement", HE + ": finalize_sale"), ("payout", SALE + ": NftSaleProcessor::build_payments, payout")], BOOK)
P("V02", "A token is in custody exactly while it is listed",
  "Listing a token takes it into the contract in the same call; it leaves exactly once, to the buyer's recipient (or the buyer) when it is sold, or to the listing's recipient (or its creator) when the listing is withdrawn. "
  "A sale deletes the token's listing, repricing keeps the token, and no other call moves a token.",
  ["inputs", "histories"], "for every message and state of the order book", W, [EX, HE, NFT], [("escrow", EX + ": execute_set_ask"), ("return", EX + ": execute_remove_ask"), ("delivery", HE + ": finalize_sale")], BOOK)
P("V03", "Only owners sell, only creators change orders, only the admin configures",
  "An unlisted token is listed or sold only if the collection names the sender as its owner, a listed one only by the listing's creator (a buyer takes it on the listing's terms); an order is repriced or withdrawn only by its creator and stored only in the sender's name; "
  "settings change only if the chain reports the sender as the contract's administrator. If that cannot be established the call fails.",
  ["inputs", "histories"], "for every caller, message and state, and every answer of the collection", W, [EX, HE, NFT], [("owner", NFT + ": only_owner"), ("administrator", HE + ": only_contract_admin"), ("creator", EX + ": execute_update_ask, execute_remove_ask, execute_update_bid, execute_remove_bid")])
P("V04", "Every accepted order is priced validly and stored as given",
  "A new or repriced order has a price above zero in the collection's currency (the one set for the collection, or the default), and a new one is for a collection that already trades. "
  "What is stored is the given price, collection and token with the validated recipient and finder.",
  ["inputs", "configurations"], "for every order, collection setting and block time", W, [EX, HE, MSG], [("price check", HE + ": only_valid_price"), ("trading check", NFT + ": only_tradable"), ("addresses", OR + ": OrderDetails::str_to_addr")], BOOK)
P("V05", "An order matches the best opposite order, and rests only if none fits",
  "A listing is sold at once to the highest bid in its currency of at least its price, among the bids on the token and on the collection, the token's own bid winning ties; a bid on a token buys its listing if that is in the same currency and not above the bid, a collection bid buys the cheapest such listing. "
  "An order is left on the book only if there is no order that fits it.",
  ["inputs", "histories"], "for every new or repriced order and every state of the order book", W + ", with at most two orders on the book", [OR, EX], [("matching", OR + ": match_with_bid, match_with_ask"), ("price index", V + "state.rs: indexes")], BOOK)
P("V06", "A sale closes both orders at the resting order's price and pays the seller",
  "A sale is for one token of one collection, at the price of the order that was there first; both orders leave the book and no other order changes. "
  "The seller's recipient (or the seller) gets exactly what fees and royalty leave of that price, in the same call.",
  ["inputs", "histories", "configurations"], "for every way of selling, every price, fee and royalty", W, [HE, EX, SALE], [("sale", HE + ": finalize_sale"), ("split", SALE + ": NftSaleProcessor")], BOOK)
P("V07", "The protocol fee is shared with the finders exactly as configured",
  "Of every sale price the configured protocol share goes to the fee manager, less the maker's reward for the resting order's finder and the taker's reward for the incoming order's finder, each the configured part of that share and only if the order names a finder; every part is rounded up on its own. "
  "Nobody else is paid out of a sale.",
  ["inputs", "configurations"], "for every sale price, finder combination and fee configuration", W, [HE, SALE], [("fees", HE + ": finalize_sale"), ("rewards", HE + ": divide_protocol_fees"), ("rounding", SALE + ": build_payments")])
P("V08", "Royalties follow the registry, capped, and unknown ones are registered",
  "In every sale the royalty is the registry's for this marketplace, else the registry's default, else the one the collection itself states, limited to the configured maximum and paid (rounded up) to the stated recipient. "
  "Only in the last case the registry is told to register the collection; no other contract is called.",
  ["inputs", "configurations"], "for every answer of registry and collection", W, [HE, ROY], [("lookup", HE + ": finalize_sale"), ("registry", "contracts/stargaze-marketplace-v2/Cargo.toml: stargaze-royalty-registry")])
P("V09", "Listing costs exactly the listing fee of one currency",
  "Listing or instantly selling a token succeeds only with exactly one coin attached, whose currency has a listing fee and whose amount is exactly that fee; the coin goes on to the fee manager in the same call.",
  ["inputs", "configurations"], "for every set of attached coins and fee table", W, [EX], [("listing fee", EX + ": execute_set_ask")])
P("V10", "Withdrawals always work and refund in full; change goes back",
  "The creator can always withdraw an order without attaching funds, whatever the configuration or collection answers, and gets back exactly the bid's price; everything attached to a bid or purchase beyond what is stored or paid returns to the sender in the same call. "
  "Calls that need no coins refuse them.",
  ["inputs", "histories", "configurations"], "for every order, caller, attached funds and configuration", W, [EX], [("withdrawal", EX + ": execute_remove_bid, execute_remove_collection_bid, execute_remove_ask"), ("change", EX + ": execute_set_bid")], BOOK)
P("V11", "Nobody trades beyond the price he named, and instant orders never rest",
  "Accepting an order succeeds only in the currency of the given limit, at most at it when buying and at least at it when selling; a listing never sells below its price and a bid never buys above it. "
  "SellNft, BuySpecificNft and BuyCollectionNft either trade at once or fail without leaving an order.",
  ["inputs", "histories"], "for every order, limit and state of the order book", W, [EX, OR], [("limits", EX + ": execute_accept_ask, execute_accept_bid, execute_accept_collection_bid"), ("instant", EX + ": execute_set_ask, execute_set_bid, execute_set_collection_bid")], BOOK)
P("V12", "Marketplace v2 settings are stored as given and keep fees below 100%",
  "Instantiation and the administrator's update store exactly the given configuration, with valid addresses, only if the protocol fee and the sum of the rewards are each below 100%; setting a collection's currency or a listing fee changes exactly that entry. "
  "Trading changes no setting, administration touches no order, and migration changes neither.",
  ["inputs", "configurations"], "for every message and stored configuration", W, [ST, EX, V + "instantiate.rs", V + "migrate.rs"], [("validation", ST + ": Config::save"), ("updates", EX + ": execute_update_config, execute_set_listing_fee")])
P("V13", "Orders keep a unique identity for their whole life",
  "A listing's id is derived from exactly its collection and token, so a token has at most one; a new bid's id contains a freshly advanced order number, so two orders never share an id; every order is stored under its own id, no order overwrites another, and repricing keeps id, creator, collection and token.",
  ["inputs", "histories"], "for every sequence of orders, including several in one block", W, [OR, HE, EX], [("ids", HE + ": generate_id"), ("order number", ST + ": NONCE")], BOOK)
