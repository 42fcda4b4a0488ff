OCW, OCT, OCS = "pallets/oracle-ocw/src/lib.rs", "pallets/oracle-ocw/src/types.rs", "pallets/oracle-ocw/src/traits.rs"
OS = [("last_send", "block in which each asset was fed last, in the node's local storage", OCW), ("oracle_ocw::lock", "keeps a second worker out, for at most 30 seconds", OCW)]
prop("O01", "Each asset is fed once per window, and tried again in it if that failed",
     "The worker asks for and sends prices only at blocks of a feeding window (block number modulo the interval below the window), and only for the assets it has not fed in that window yet; an asset without a price, or all of them if the transaction is refused, is tried again at the window's next block. While another worker is at it, in parallel or killed less than 30 seconds ago, it does nothing. A node that lost its record, or has an older or unreadable one, feeds as a new one would.",
     ["histories", "schedules", "crash_points", "configurations"], "every sequence of blocks (also skipped, repeated and reverted ones), refusals by the pool, missing prices, workers in between and kills at every request",
     "The one test runs a single window in which everything succeeds.",
     [OCW], [("assets due in offchain_worker; last_send_for_assets; StorageLock", OCW)], OS, ["requests to the venues", "transactions handed to the pool"])
prop("O02", "A price sent is the volume-weighted price of all venues that answered properly",
     "The price sent for an asset is, over all venues quoting it that gave a valid answer and over the latest candles that count there (15 of a minute, or 10 of half an hour), the sum of volume times the mean of high, low and close, divided by the sum of volumes, up to the rounding of the figures (1e-8). Every venue, each with its own format and order of candles, counts with exactly its own figures and weight.",
     ["inputs", "configurations"], "every combination of answering venues, numbers of candles, prices from nothing to 10^12 and volumes, also of zero",
     "One recorded answer per venue cannot tell the fields, the candles that count, or the weighting apart from similar ones.",
     [OCT, OCS, OCW], [("OpenCloseVolume; parse_body of each fetcher", OCT), ("get_moving_average", OCS), ("combine_prices", OCW)], OS, ["prices in the transaction"])
prop("O03", "A bad, missing, slow or extreme answer costs only that venue's say",
     "An answer that is refused, fails, comes late or slowly, breaks off, has another status than 200, is not text, not in the venue's format, incomplete, negative, out of range or without any volume counts as no answer of that venue for that asset: prices of other venues and assets are sent regardless, no price is sent without a valid answer, the worker never aborts, whatever figures it is given, and it is done before its lock of 30 seconds runs out.",
     ["inputs", "fault_sequences", "schedules"], "every kind of fault at every venue and asset in every combination, figures up to 10^12",
     "Tests use good answers only; faults at several venues at once, slow bodies and extreme figures have to be produced.",
     [OCS, OCT], [("get_moving_average", OCS), ("parse_body of each fetcher", OCT)], OS, ["prices in the transaction", "time taken"])
prop("O04", "Prices are sent only with a key that may feed",
     "A node asks the venues and sends prices only if its keystore holds the key of an account allowed to feed, and signs with such a key, wherever in the keystore it is and whatever other keys there are.",
     ["inputs", "configurations", "histories"], "every content and order of the keystore and every set of members, changing between blocks",
     "The tests' keystore holds one key, which is allowed to feed.",
     [OCW], [("maybe_key in offchain_worker; send_signed_transaction", OCW)], OS, ["signer of the transaction"])
