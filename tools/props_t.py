from meta import P, M, R
T = "typescript/packages/marketplace-types/src/"
TT = "symbolic-argument evaluation of the TypeScript syntax tree (all paths, nothing executed) with the type checker's types, compared with the message and answer forms extracted from the compiled contract"
TN = ("every path of every client, composer and hook callable reachable from index.ts is evaluated on symbolic arguments (engine/ts/clients.js); calls into packages outside the repository are opaque and "
      "their arguments compared; message and answer forms are those of the contract as compiled from this tree (rules/clients.py)")
TW = "no unit test touches the TypeScript package, and the contract's own tests never see the JSON a client builds"
for pid, n, base, extra in (("T01", "Marketplace", M, ""), ("T02", "ReserveAuction", R, "")):
    who = "Marketplace" if pid == "T01" else "Auction house"
    P(pid, who + " TypeScript clients send and ask exactly what they are told",
      "In the published TypeScript package, each operation of %sClient executes once, and of %sMessageComposer composes, exactly the contract message of its name: for the contract and from the sender it was made for, every argument in the field of its name, "
      "an optional field left out only when its argument is, with the given fee (automatic by default), memo and funds. Each query method and hook asks the query of its name of its contract with exactly the given arguments and gives its answer or failure; "
      "a hook asks nothing without a client or when the caller disables it, keeps the caller's options, and caches by contract, query and arguments. Every message of the contract has its method, and argument and answer types are the forms the contract takes and gives." % (n, n),
      ["inputs"], "for every method, argument, fee, memo, funds, contract and sender", TW,
      [T + n + ".client.ts", T + n + ".message-composer.ts", T + n + ".react-query.ts", T + n + ".types.ts", T + "index.ts", base + "msg.rs"],
      [("queries and executions", T + n + ".client.ts: %sQueryClient, %sClient" % (n, n)), ("messages for signing", T + n + ".message-composer.ts: %sMessageComposer" % n),
       ("hooks and cache keys", T + n + ".react-query.ts: %sQueries, use%s*Query" % (n[0].lower() + n[1:], n)), ("forms", T + n + ".types.ts; " + base + "msg.rs: ExecuteMsg, QueryMsg, InstantiateMsg")],
      None, TT, TN)
C = "typescript/packages/marketplace-cli/src/"
CT = "symbolic-argument evaluation of the TypeScript syntax tree of every command (all paths, nothing executed), with a taint rule for phrases and order, condition and provenance rules over the calls of each path"
CN = ("every path of every command's run and of every exported function of cosmWasmClient.ts is evaluated on symbolic arguments, options, stored settings and answers (engine/ts/clients.js, tool mode: prints, promises started and awaited, "
      "loops and element-wise functions are reported); calls into packages outside the repository are opaque and their arguments compared (rules/cli.py)")
CW = "no test touches the command-line tool"
P("T03", "The command-line tool keeps keys as told and tells no phrase",
  "keys generate makes a fresh 24-word wallet with stars addresses, stores its phrase under the given name beside all the phrases there were, makes the name the default exactly when there was no default, shows the name with the address, and refuses a name that is in use, changing nothing. "
  "keys set makes a name the default only if it has a phrase, changes nothing else, and shows that account's address. keys list shows each stored key with its name, its address and that address's ustars balance; keys get-balance asks for the given address and the given denom (ustars if none). "
  "Balances are shown as the chain gives them, amount and denom. No other command changes what is stored, a command that fails has stored nothing, and no phrase is printed, put in an error, sent or stored anywhere but in the key store.",
  ["inputs", "histories"], "for every name, address, denom, stored keys and default, and every answer of the node", CW,
  [C + "commands/keys/", C + "lib/confStorage.ts", C + "lib/cosmos/cosmWasmClient.ts"],
  [("a key", C + "commands/keys/generate.ts: run; " + C + "lib/confStorage.ts: setMnemonic"), ("the default", C + "commands/keys/set.ts: run"),
   ("balances", C + "commands/keys/list.ts, get-balance.ts: run"), ("phrases", C + "lib/: getMap, getMnemonic, getSigningCosmWasmClient")], None, CT, CN)
P("T04", "The command-line tool connects as configured and schedules auctions as told",
  "Every connection goes to the configured node, and only if that is an http or https URL. No command but schedule-end-auction sends a transaction. That one refuses an end time that is not an exact ISO timestamp (as toISOString writes it) before it sends anything, sends nothing in a dry run, and goes through all the given tokens: "
  "a token of the collection for which the contract already reports an auction of the creator is skipped, and for every other one exactly three transactions are sent, each awaited before the next: approve (to the collection, by the creator, spender the auction contract, that token), create_auction (to the contract, by the creator, that collection and token, "
  "duration the whole seconds from now to the end time, reserve price 1000000ustars, funds the contract's create_auction_fee), place_bid (to the contract, by the bidder, that collection and token, funds the reserve price). Each is signed by the named account (the default one only if none is named), whose address is its sender.",
  ["inputs", "histories"], "for every contract, collection, list of tokens, end time, accounts, stored keys and node, and every answer of the node", CW,
  [C + "commands/reserve-auction/schedule-end-auction.ts", C + "lib/cosmos/cosmWasmClient.ts", C + "lib/helpers/"],
  [("connections", C + "lib/cosmos/cosmWasmClient.ts: getCosmWasmClient, getSigningCosmWasmClient, initCliClient; " + C + "lib/helpers/httpUrl.ts: isValidHttpUrl"),
   ("scheduled auctions", C + "commands/reserve-auction/schedule-end-auction.ts: run; " + C + "lib/helpers/date.ts: isISODate, ISOToSeconds")], None, CT, CN)
