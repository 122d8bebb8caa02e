S = "contracts/reserve-auction/src/"
EX, ST, SU, HE = S + "execute.rs", S + "state.rs", S + "sudo.rs", S + "helpers.rs"
OPEN = """
    let mut c = house(init());
    c.token(C, "1", "seller");
    c.token(C, "2", "seller");
    c.token(C, "3", "seller");
"""
SEEDS = [
 dict(id="r04-refund-of-new-coin", property="R04", crate="ra",
  edits=[(EX, """            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);
""", """            if previous_high_bid.bidder != next_bid.bidder {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }
""")],
  needs="the current high bidder raises his own bid",
  breaks="a bidder who raises his own bid does not get the previous one back",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(100, D), 1000).unwrap();
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    place(&mut c, "bidder", "1", coin(200, D)).unwrap();
    assert_eq!(c.of("bidder", D), -200);
    assert_eq!(c.of(ME, D), 200);
"""),
 dict(id="r05-extension-shortens", property="R05", crate="ra",
  edits=[(EX, """            let time_remaining = auction.end_time.unwrap().seconds() - block_time.seconds();
            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));
            }
""", """            let time_remaining = auction.end_time.unwrap().seconds() - block_time.seconds();
            let extension = config.extend_duration.min(auction.duration);
            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(extension));
            }
""")],
  needs="an auction shorter than the extension period whose end was extended, or set by an earlier bid, and a later bid",
  breaks="a late bid on a short auction extends it by less than the configured extension",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(100, D), 100).unwrap();
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    c.forward(50);
    place(&mut c, "other", "1", coin(200, D)).unwrap();
    let end = auction(&c, "1")["end_time"].as_str().unwrap().parse::<u64>().unwrap() / 1_000_000_000;
    assert_eq!(end, c.now() + 900);
"""),
 dict(id="r03-increment-of-reserve", property="R03", crate="ra",
  edits=[(ST, """                .mul_ceil(Decimal::one() + min_bid_increment_percent),""", """                .mul_floor(Decimal::one() + min_bid_increment_percent),""")],
  needs="a high bid whose raised minimum is not a whole number",
  breaks="the minimum for the next bid is rounded down, so a tiny bid can be replaced by an equal one",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(11, D), 1000).unwrap();
    place(&mut c, "bidder", "1", coin(15, D)).unwrap();
    assert!(place(&mut c, "other", "1", coin(16, D)).is_err());
    place(&mut c, "other", "1", coin(17, D)).unwrap();
"""),
 dict(id="r06-recipient-on-settle", property="R06", crate="ra",
  edits=[(HE, """    (_, response) = payout_nft_sale_fees(
        &high_bid.coin,
        &auction.funds_recipient(),""", """    // Reserved currency auctions are paid to the seller directly
    let recipient = if high_bid.coin.denom == config.create_auction_fee.denom {
        auction.funds_recipient()
    } else {
        auction.seller.clone()
    };

    (_, response) = payout_nft_sale_fees(
        &high_bid.coin,
        &recipient,""")],
  needs="an auction in a currency other than that of the creation fee, with a separate funds recipient",
  breaks="the proceeds go to the seller although he named a funds recipient",
  demo=OPEN + """
    let m = ExecuteMsg::CreateAuction { collection: C.into(), token_id: "1".into(), reserve_price: coin(100, "uosmo"), duration: 1000, seller_funds_recipient: Some("vault".into()) };
    exec(&mut c, "seller", &coins(7, D), m).unwrap();
    place(&mut c, "bidder", "1", coin(100, "uosmo")).unwrap();
    c.forward(1001);
    settle(&mut c, "anybody", "1").unwrap();
    assert_eq!(c.of("vault", "uosmo"), 96);
    assert_eq!(c.of("seller", "uosmo"), 0);
    assert_eq!(c.owner(C, "1"), "bidder");
"""),
 dict(id="r07-cancel-after-end", property="R07", crate="ra",
  edits=[(EX, """    // Ensure caller is the seller
    ensure_eq!(auction.seller, info.sender, ContractError::Unauthorized {});

    // Ensure auction hasn't started
    ensure!(
        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );

    // Remove auction""", """    // Ensure caller is the seller, or the account he sells for
    let manages = auction.seller == info.sender
        || auction.seller_funds_recipient.as_ref() == Some(&info.sender);
    ensure!(manages, ContractError::Unauthorized {});

    // Ensure auction hasn't started
    ensure!(
        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );

    // Remove auction""")],
  needs="the funds recipient of an auction without bids cancels it",
  breaks="somebody other than the seller can cancel an auction",
  demo=OPEN + """
    let m = ExecuteMsg::CreateAuction { collection: C.into(), token_id: "1".into(), reserve_price: coin(100, D), duration: 1000, seller_funds_recipient: Some("vault".into()) };
    exec(&mut c, "seller", &coins(7, D), m).unwrap();
    assert!(exec(&mut c, "vault", &[], ExecuteMsg::CancelAuction { collection: C.into(), token_id: "1".into() }).is_err());
    exec(&mut c, "seller", &[], ExecuteMsg::CancelAuction { collection: C.into(), token_id: "1".into() }).unwrap();
    assert_eq!(c.owner(C, "1"), "seller");
"""),
 dict(id="r09-limit-before-order", property="R09", crate="ra",
  edits=[(SU, "    let order = Order::Ascending;\n    let max = ", "    let order = Order::Descending;\n    let max = ")],
  needs="more ended auctions than are settled in one block",
  breaks="the sweep settles the auctions that ended last first, so that the oldest ones wait",
  demo=OPEN + """
    let mut i = init();
    i.max_auctions_to_settle_per_block = 1;
    let mut c = house(i);
    c.token(C, "1", "seller");
    c.token(C, "2", "seller");
    create(&mut c, "seller", "1", coin(100, D), 1000).unwrap();
    create(&mut c, "seller", "2", coin(100, D), 2000).unwrap();
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    place(&mut c, "bidder", "2", coin(100, D)).unwrap();
    c.forward(2001);
    end(&mut c).unwrap();
    assert_eq!(c.owner(C, "1"), "bidder");
    assert_eq!(c.owner(C, "2"), ME);
    end(&mut c).unwrap();
    assert_eq!(c.owner(C, "2"), "bidder");
"""),
 dict(id="r10-window-boundary", property="R10", crate="ra",
  edits=[(ST, """        for halt_info in &self.halt_windows {
            if block_time > halt_info.start_time && block_time < halt_info.end_time {
                return true;
            }
        }
        false
""", """        // the latest halt decides
        match self.halt_windows.last() {
            Some(halt_info) => {
                block_time > halt_info.start_time && block_time < halt_info.end_time
            }
            None => false,
        }
""")],
  needs="two chain halts recorded, and an auction that ended in the first of them",
  breaks="an auction that ended in an earlier halt is settled instead of being postponed",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(100, D), 5000).unwrap();
    begin(&mut c).unwrap();
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    c.forward(4000);
    begin(&mut c).unwrap();
    c.forward(1500);
    begin(&mut c).unwrap();
    c.forward(2500);
    begin(&mut c).unwrap();
    settle(&mut c, "anybody", "1").unwrap();
    assert_eq!(c.owner(C, "1"), ME);
"""),
 dict(id="r10-gap-measured-late", property="R10", crate="ra",
  edits=[(SU, """            start_time: halt_manager.prev_block_time,
            end_time""", """            start_time: current_block_time - config.halt_duration_threshold,
            end_time""")],
  needs="a halt much longer than the threshold, and an auction that ended early in it",
  breaks="the recorded halt starts later than the last block before it, so auctions ending early in it are settled",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(100, D), 1000).unwrap();
    begin(&mut c).unwrap();
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    c.forward(50_000);
    begin(&mut c).unwrap();
    end(&mut c).unwrap();
    assert_eq!(c.owner(C, "1"), ME);
"""),
 dict(id="r11-max-duration", property="R11", crate="ra",
  edits=[(SU, """        config.min_duration = min_duration;
""", """        config.min_duration = min_duration;
        config.extend_duration = config.extend_duration.min(min_duration);
""")],
  needs="governance lowers the minimum duration below the extension period",
  breaks="an update of the minimum duration also changes the extension period",
  demo="""
    let mut c = house(init());
    let m: SudoMsg = serde_json::from_value(json!({"update_params": {"min_duration": 30}})).unwrap();
    sudo(&mut c, m).unwrap();
    let p = query(&c, QueryMsg::Config {});
    let p = p.get("config").unwrap_or(&p).clone();
    assert_eq!(p["min_duration"], 30);
    assert_eq!(p["extend_duration"], 900);
"""),
 dict(id="r02-custody-of-relisted", property="R02", crate="ra",
  edits=[(EX, """        .add_submessage(transfer_nft(&collection, token_id, &auction.seller));

    Ok(response)""", """        .add_submessage(transfer_nft(&collection, token_id, &auction.funds_recipient()));

    Ok(response)""")],
  needs="an auction with a separate funds recipient is cancelled",
  breaks="the token of a cancelled auction goes to the funds recipient instead of the seller",
  demo=OPEN + """
    let m = ExecuteMsg::CreateAuction { collection: C.into(), token_id: "1".into(), reserve_price: coin(100, D), duration: 1000, seller_funds_recipient: Some("vault".into()) };
    exec(&mut c, "seller", &coins(7, D), m).unwrap();
    exec(&mut c, "seller", &[], ExecuteMsg::CancelAuction { collection: C.into(), token_id: "1".into() }).unwrap();
    assert_eq!(c.owner(C, "1"), "seller");
"""),
 dict(id="r12-set-overwrites", property="R12", crate="ra",
  edits=[(SU, """        if MIN_RESERVE_PRICES.has(deps.storage, min_reserve_price.denom.clone()) {""", """        if min_reserve_price.amount.is_zero() {
            MIN_RESERVE_PRICES.remove(deps.storage, min_reserve_price.denom);
            continue;
        }
        if MIN_RESERVE_PRICES.has(deps.storage, min_reserve_price.denom.clone()) {""")],
  needs="governance sets a minimum of zero for an accepted currency",
  breaks="setting a minimum of zero withdraws the currency instead of accepting it at zero (or rejecting the message)",
  demo="""
    let mut c = house(init());
    let m: SudoMsg = serde_json::from_value(json!({"set_min_reserve_prices": {"min_reserve_prices": [{"denom": "ufree", "amount": "0"}]}})).unwrap();
    sudo(&mut c, m).unwrap();
    c.token(C, "1", "seller");
    create(&mut c, "seller", "1", coin(5, "ufree"), 1000).unwrap();
"""),
 dict(id="r01-fee-denom-kept", property="R01", crate="ra",
  edits=[(EX, """    let bid_amount = must_pay(&info, &auction_denom)?;
""", """    let bid_amount = info
        .funds
        .iter()
        .find(|c| c.denom == auction_denom)
        .map(|c| c.amount)
        .ok_or(ContractError::BidTooLow(auction.reserve_price.amount))?;
""")],
  needs="a bid with a second coin attached",
  breaks="coins of another currency attached to a bid stay in the contract",
  demo=OPEN + """
    create(&mut c, "seller", "1", coin(100, D), 1000).unwrap();
    let r = exec(&mut c, "bidder", &[coin(100, D), coin(5, "uosmo")], ExecuteMsg::PlaceBid { collection: C.into(), token_id: "1".into() });
    assert!(r.is_err());
    place(&mut c, "bidder", "1", coin(100, D)).unwrap();
    assert_eq!(c.of(ME, "uosmo"), 0);
"""),
]
