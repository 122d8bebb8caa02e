S = "contracts/stargaze-marketplace-v2/src/"
EX, OR, HE, ST, QU = S + "execute.rs", S + "orders.rs", S + "helpers.rs", S + "state.rs", S + "query.rs"
P = "packages/sg-marketplace-common/src/"
M = "\n    let mut c = market();\n"
SEEDS = [
 dict(id="v01-update-refund-twice", property="V01", crate="v2",
  edits=[(EX, """    // Add the previous price to the funds in context
    funds = funds.add(collection_bid.details.price.clone());

    collection_bid.details = details;
""", """    // Add the previous price to the funds in context
    if collection_bid.details.price.denom == details.price.denom {
        funds = funds.add(collection_bid.details.price.clone());
    }

    collection_bid.details = details;
""")],
  needs="a collection bid repriced after the collection's currency has changed",
  breaks="the old price of a collection bid repriced in another currency stays in the contract",
  demo=M + """
    set_colbid(&mut c, "bidder", at(100), 100).unwrap();
    x(&mut c, "admin", &[], json!({"update_collection_denom": {"collection": C, "denom": O}})).unwrap();
    let id = colbid_id(&c, "bidder");
    x(&mut c, "bidder", &coins(70, O), json!({"update_collection_bid": {"id": id, "details": {"price": coin(70, O)}}})).unwrap();
    assert_eq!(c.of(ME, D), 0);
    assert_eq!(c.of(ME, O), 70);
"""),
 dict(id="v02-return-to-creator", property="V02", crate="v2",
  edits=[(EX, """    let mut response = transfer_nft(
        &ask.collection,
        &ask.token_id,
        &ask.asset_recipient(),
        Response::new(),
    );

    ask.remove(deps.storage)?;
""", """    let mut response = Response::new();
    if ask.creator != ask.asset_recipient() || ask.details.recipient.is_none() {
        response = transfer_nft(
            &ask.collection,
            &ask.token_id,
            &ask.asset_recipient(),
            response,
        );
    }

    ask.remove(deps.storage)?;
""")],
  needs="a listing that names its creator as recipient, withdrawn",
  breaks="the token of such a listing is never returned",
  demo=M + """
    set_ask(&mut c, "seller", "1", with(100, Some("seller"), None)).unwrap();
    let id = ask_id(&c, "seller", "1");
    x(&mut c, "seller", &[], json!({"remove_ask": {"id": id}})).unwrap();
    assert_eq!(c.owner(C, "1"), "seller");
"""),
 dict(id="v03-accept-listed-token", property="V03", crate="v2",
  edits=[(EX, """    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator {
            Err(MarketplaceStdError::Unauthorized(
                "sender is not creator of ask".to_string(),
            ))?;
        }
        ask
    } else {
        only_owner(&deps.querier, &info, &collection_bid.collection, &token_id)?;
""", """    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator && Some(&info.sender) != ask.details.recipient.as_ref() {
            Err(MarketplaceStdError::Unauthorized(
                "sender is not creator of ask".to_string(),
            ))?;
        }
        ask
    } else {
        only_owner(&deps.querier, &info, &collection_bid.collection, &token_id)?;
""")],
  needs="a listing with a separate recipient, and a collection bid below the listing's price that the recipient accepts",
  breaks="somebody who is not the creator of a listing sells the token below its price",
  demo=M + """
    set_ask(&mut c, "seller", "1", with(1000, Some("payee"), None)).unwrap();
    set_colbid(&mut c, "bidder", at(100), 100).unwrap();
    let id = colbid_id(&c, "bidder");
    assert!(x(&mut c, "payee", &[], json!({"accept_collection_bid": {"id": id, "token_id": "1", "details": at(100)}})).is_err());
    assert_eq!(c.owner(C, "1"), ME);
"""),
 dict(id="v03-admin-unset", property="V03", crate="v2",
  edits=[(HE, """    if contract_info_resp.admin.is_none() {
        Err(MarketplaceStdError::Unauthorized(
            "contract admin unset".to_string(),
        ))?;
    }

    ensure_eq!(
        info.sender,
        contract_info_resp.admin.unwrap(),
""", """    ensure_eq!(
        info.sender,
        contract_info_resp
            .admin
            .unwrap_or(contract_info_resp.creator),
""")],
  needs="a contract whose administrator was cleared",
  breaks="the creator of a contract without administrator can change its settings",
  demo=M + """
    c.nfts().admins.clear();
    assert!(x(&mut c, "creator", &[], json!({"set_listing_fee": {"fee": coin(9, D)}})).is_err());
    c.nfts().admins.insert(ME.into(), "admin".into());
    x(&mut c, "admin", &[], json!({"set_listing_fee": {"fee": coin(9, D)}})).unwrap();
"""),
 dict(id="v04-reprice-denom", property="V04", crate="v2",
  edits=[(EX, """    only_valid_price(deps.storage, &config, &ask.collection, &details.price)?;

    ask.details = details;
""", """    if details.price.denom != ask.details.price.denom {
        only_valid_price(deps.storage, &config, &ask.collection, &details.price)?;
    }

    ask.details = details;
""")],
  needs="a listing repriced in its own currency to zero (or after the collection's currency changed)",
  breaks="a listing can be repriced to zero",
  demo=M + """
    set_ask(&mut c, "seller", "1", at(100)).unwrap();
    let id = ask_id(&c, "seller", "1");
    x(&mut c, "seller", &[], json!({"update_ask": {"id": id.clone(), "details": at(50)}})).unwrap();
    assert!(x(&mut c, "seller", &[], json!({"update_ask": {"id": id, "details": at(0)}})).is_err());
"""),
 dict(id="v05-tie-to-collection", property="V05", crate="v2",
  edits=[(OR, """                if bid.details.price.amount >= collection_bid.details.price.amount {""",
              """                if bid.details.price.amount > collection_bid.details.price.amount {""")],
  needs="a token bid and a collection bid of the same price, and a listing both satisfy",
  breaks="a collection bid wins a tie against the bid on the token itself",
  demo=M + """
    set_colbid(&mut c, "second", at(100), 100).unwrap();
    set_bid(&mut c, "first", "1", at(100), 100).unwrap();
    set_ask(&mut c, "seller", "1", at(90)).unwrap();
    assert_eq!(c.owner(C, "1"), "first");
"""),
 dict(id="v05-equal-ask-rests", property="V05", crate="v2",
  edits=[(OR, """                max: Some(QueryBound::Exclusive(PriceOffset {
                    id: "".to_string(),
                    amount: self.details.price.amount.u128() + 1,
                })),""", """                max: Some(QueryBound::Exclusive(PriceOffset {
                    id: "".to_string(),
                    amount: self.details.price.amount.u128(),
                })),""")],
  needs="a collection bid at exactly the price of the cheapest listing",
  breaks="a collection bid that satisfies a listing is left on the book",
  demo=M + """
    set_ask(&mut c, "seller", "1", at(100)).unwrap();
    set_colbid(&mut c, "bidder", at(100), 100).unwrap();
    assert_eq!(c.owner(C, "1"), "bidder");
"""),
 dict(id="v06-recipient-of-listing", property="V06", crate="v2",
  edits=[(HE, """    let seller_recipient = ask.asset_recipient();
""", """    let seller_recipient = if ask_before_bid {
        ask.asset_recipient()
    } else {
        ask.creator.clone()
    };
""")],
  needs="a listing with a recipient that is sold to a bid that was there first",
  breaks="the proceeds do not go to the listing's recipient",
  demo=M + """
    set_bid(&mut c, "bidder", "1", at(1000), 1000).unwrap();
    set_ask(&mut c, "seller", "1", with(900, Some("payee"), None)).unwrap();
    assert_eq!(c.of("payee", D), 980);
"""),
 dict(id="v06-second-bid-removed", property="V06", crate="v2",
  edits=[(HE, """        MatchingBid::CollectionBid(collection_bid) => {
            collection_bid.remove(deps.storage)?;
        }
    }
""", """        MatchingBid::CollectionBid(collection_bid) => {
            if collection_bid.creator != ask.creator {
                collection_bid.remove(deps.storage)?;
            }
        }
    }
""")],
  needs="somebody who sells his own token to his own collection bid",
  breaks="a sold collection bid stays on the book without money behind it",
  demo=M + """
    set_colbid(&mut c, "other", at(500), 500).unwrap();
    set_colbid(&mut c, "seller", at(1000), 1000).unwrap();
    set_ask(&mut c, "seller", "1", at(900)).unwrap();
    let l = query(&c, json!({"collection_bids_by_price": {"collection": C, "denom": D, "query_options": null}}));
    assert_eq!(l.as_array().unwrap().len(), 1);
"""),
 dict(id="v07-same-finder", property="V07", crate="v2",
  edits=[(HE, """    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;
""", """    let protocol_fees =
        divide_protocol_fees(config, maker.is_some(), taker.is_some() && taker != maker)?;
""")],
  needs="a sale in which both orders name the same finder",
  breaks="the finder of both orders gets only one reward",
  demo=M + """
    set_bid(&mut c, "bidder", "1", with(100_000, None, Some("finder")), 100_000).unwrap();
    set_ask(&mut c, "seller", "1", with(90_000, None, Some("finder"))).unwrap();
    assert_eq!((c.of("finder", D), c.of("feemanager", D)), (1200, 805));
    assert_eq!(c.of("seller", D), 98_000 - 5);
"""),
 dict(id="v08-protocol-royalty", property="V08", crate="v2",
  edits=[(P + "royalties.rs", """    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }

    if let Some(royalty_default) = royalty_payment_response.royalty_default {
        return Ok(Some(royalty_default.royalty_entry.into()));
    }

    Ok(None)
""", """    if let Some(royalty_default) = royalty_payment_response.royalty_default {
        return Ok(Some(royalty_default.royalty_entry.into()));
    }

    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }

    Ok(None)
""")],
  needs="a collection with both a default royalty and one for this marketplace",
  breaks="the royalty agreed for this marketplace is ignored",
  demo=M + """
    c.nfts().royalties.insert(C.into(), json!({
        "royalty_protocol": {"collection": C, "protocol": ME, "royalty_entry": {"recipient": "agreed", "share": "0.03", "updated": null}},
        "royalty_default": {"collection": C, "royalty_entry": {"recipient": "artist", "share": "0.05", "updated": null}}}));
    set_ask(&mut c, "seller", "1", at(1000)).unwrap();
    set_bid(&mut c, "bidder", "1", at(1000), 1000).unwrap();
    assert_eq!(c.of("agreed", D), 30);
"""),
 dict(id="v09-cheaper-fee", property="V09", crate="v2",
  edits=[(EX, """        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
            ContractError::InvalidInput("payment amount does not match listing fee".to_string())
        );
""", """        ensure!(
            sell_now && !listing_payment.amount.is_zero() || listing_payment.amount == _listing_fee,
            ContractError::InvalidInput("payment amount does not match listing fee".to_string())
        );
""")],
  needs="SellNft with another amount than the listing fee",
  breaks="an instant sale is listed for less than the listing fee",
  demo=M + """
    set_bid(&mut c, "bidder", "1", at(1000), 1000).unwrap();
    assert!(x(&mut c, "seller", &coins(1, D), json!({"sell_nft": {"collection": C, "token_id": "1", "details": at(900)}})).is_err());
    x(&mut c, "seller", &coins(5, D), json!({"sell_nft": {"collection": C, "token_id": "1", "details": at(900)}})).unwrap();
"""),
 dict(id="v10-change-of-purchase", property="V10", crate="v2",
  edits=[(EX, """    let config = CONFIG.load(deps.storage)?;
    let mut response = finalize_sale(
        deps,
        &env,
        &ask,
        &config,
        &MatchingBid::Bid(bid),
        true,
        Response::new(),
    )?;

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &info.sender, response);
    }
""", """    let config = CONFIG.load(deps.storage)?;
    let change_recipient = bid.asset_recipient();
    let mut response = finalize_sale(
        deps,
        &env,
        &ask,
        &config,
        &MatchingBid::Bid(bid),
        true,
        Response::new(),
    )?;

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &change_recipient, response);
    }
""")],
  needs="a listing accepted for somebody else with more attached than its price",
  breaks="the change goes to the token's recipient instead of the one who paid",
  demo=M + """
    set_ask(&mut c, "seller", "1", at(1000)).unwrap();
    let id = ask_id(&c, "seller", "1");
    x(&mut c, "buyer", &coins(1200, D), json!({"accept_ask": {"id": id, "details": with(1200, Some("friend"), None)}})).unwrap();
    assert_eq!((c.of("buyer", D), c.of("friend", D)), (-1000, 0));
"""),
 dict(id="v11-limit-of-funds", property="V11", crate="v2",
  edits=[(EX, """    ensure!(
        has_coins(&[details.price.clone()], &ask.details.price),
        ContractError::InvalidInput("ask price is greater than max input".to_string())
    );
""", """    ensure!(
        has_coins(&info.funds, &ask.details.price),
        ContractError::InvalidInput("ask price is greater than max input".to_string())
    );
""")],
  needs="a listing repriced upwards before somebody accepts it with more attached than his limit",
  breaks="a buyer pays more than the limit he named",
  demo=M + """
    set_ask(&mut c, "seller", "1", at(1000)).unwrap();
    let id = ask_id(&c, "seller", "1");
    x(&mut c, "seller", &[], json!({"update_ask": {"id": id, "details": at(1150)}})).unwrap();
    assert!(x(&mut c, "buyer", &coins(1200, D), json!({"accept_ask": {"id": id, "details": at(1000)}})).is_err());
    x(&mut c, "buyer", &coins(1200, D), json!({"accept_ask": {"id": id, "details": at(1150)}})).unwrap();
"""),
 dict(id="v11-instant-rests", property="V11", crate="v2",
  edits=[(EX, """        // Store the collection bid
""", "")] if False else [(EX, """            true,
        ),
        ExecuteMsg::BuyCollectionNft {
            collection,
            details,
        } => execute_set_collection_bid(
            deps,
            env,
            info,
            api.addr_validate(&collection)?,
            details.str_to_addr(api)?,
            true,
        ),
""", """            true,
        ),
        ExecuteMsg::BuyCollectionNft {
            collection,
            details,
        } => {
            let buy_now = details.recipient.is_none();
            execute_set_collection_bid(
                deps,
                env,
                info,
                api.addr_validate(&collection)?,
                details.str_to_addr(api)?,
                buy_now,
            )
        }
""")],
  needs="BuyCollectionNft with a recipient and no listing that fits",
  breaks="an instant purchase leaves a bid on the book",
  demo=M + """
    assert!(x(&mut c, "buyer", &coins(100, D), json!({"buy_collection_nft": {"collection": C, "details": with(100, Some("friend"), None)}})).is_err());
    assert_eq!(c.of("buyer", D), 0);
"""),
 dict(id="v12-reward-limit", property="V12", crate="v2",
  edits=[(ST, """            (self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS,""",
              """            self.maker_reward_bps < MAX_BASIS_POINTS && self.taker_reward_bps < MAX_BASIS_POINTS,""")],
  needs="rewards that are each below but together above 100%",
  breaks="a configuration that pays out more than the protocol fee is accepted, and sales fail",
  demo=M + """
    let mut m = init();
    m["config"]["maker_reward_bps"] = json!(6000);
    m["config"]["taker_reward_bps"] = json!(6000);
    assert!(x(&mut c, "admin", &[], json!({"update_config": m.clone()})).is_err());
    m["config"]["taker_reward_bps"] = json!(3999);
    x(&mut c, "admin", &[], json!({"update_config": m})).unwrap();
"""),
 dict(id="v13-counter-only-when-stored", property="V13", crate="v2",
  edits=[(EX, """    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(
        info.sender.clone(),
        collection,
        token_id,
        details,
        env.block.height,
        nonce,
    );

    let matching_ask = bid.match_with_ask(deps.as_ref())?;
""", """    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    if info.funds.len() == 1 {
        NONCE.save(deps.storage, &nonce)?;
    }

    let bid = Bid::new(
        info.sender.clone(),
        collection,
        token_id,
        details,
        env.block.height,
        nonce,
    );

    let matching_ask = bid.match_with_ask(deps.as_ref())?;
""")],
  needs="two bids on the same token in one block, the first with two coins attached",
  breaks="the order number is not advanced, so the second bid of the block collides with the first and is refused",
  demo=M + """
    let two = [coin(3, O), coin(100, D)];
    x(&mut c, "bidder", &two, json!({"set_bid": {"collection": C, "token_id": "1", "details": at(100)}})).unwrap();
    set_bid(&mut c, "second", "1", at(120), 120).unwrap();
"""),
]
