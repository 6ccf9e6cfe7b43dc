#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here, once)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

POOL="lib/pool/pool.go"; TD="lib/tickdata/tickdata.go"; POS="lib/position/position.go"
SM="lib/swapmath/swapmath.go"; SQ="lib/sqrtprice_math/sqrtprice_math.go"; FM="lib/fullmath/fullmath.go"
TM="lib/tickmath/tickmath.go"; LA="lib/liquidity_amounts/liquidity_amounts.go"; EX="lib/executor/executor.go"
PR="lib/prices/prices.go"; TX="lib/transaction/transaction.go"; ST="lib/strategy/"
NOPOOL="No test that runs without the (absent) data files touches the pool, the strategies or the executor at all."

p("C01","Swaps reproduce the Uniswap v3 contract exactly",
  "For every pool, direction, exact-input or exact-output amount and price limit, a swap exchanges exactly the two amounts the Uniswap v3 contract would, and leaves exactly its price, current tick, active liquidity and fee growth. This holds to the last unit, including swaps that cross ticks, cross stretches without liquidity, end precisely on a tick, or stop at the limit.",
  ["inputs","histories"],"every pool state reachable by minting, burning, swapping and flashing (fees 500, 3000, 10000; liquidity per tick up to uint128), every amount and every admissible limit",
  "Two-row vectors test only one swap step and mulDiv once each; the sanity test over real history needs data that is absent. "+NOPOOL,
  [POOL,SM,SQ,FM,TD],[("swap loop",POOL+":swap"),("one step",SM+":ComputeSwapStep"),("next price",SQ),("tick crossing",TD+":Cross, NextInitializedTickWithinOneWord")],
  [("price/tick/liquidity","current state of the market",POOL+":Pool")],["return values of the swap calls","pool fields after the call"])
p("C02","Swaps terminate, move one way, and respect amount and price limit",
  "Every admissible swap returns; selling token0 never raises the price and selling token1 never lowers it; the price never passes the caller's limit (or the global bounds when no limit is given). A swap stops only because the requested amount is used up or the limit is reached, an exact-input swap never takes more than the given input, and an exact-output swap never pays more than the requested output.",
  ["inputs","histories"],"every reachable pool (including pools with no liquidity, negative ticks and very sparse ticks), every amount up to 2^255-1, every admissible limit",
  "Termination and progress are claims about all states; an endless loop only shows at tick-word boundaries of negative ticks or in empty stretches that no test visits.",
  [POOL,TD,SM],[("loop condition and limit clamping",POOL+":swap"),("search step always makes progress",TD+":NextInitializedTickWithinOneWord")],(),["return of the call within a time limit","price before/after","returned amounts"])
p("C03","Active liquidity is the sum of the in-range positions",
  "After any sequence of mints, burns, swaps and flashes, the pool's active liquidity equals the liquidity minted minus burned over all ranges containing the current tick. Every tick's gross and net liquidity equal the totals of the ranges that start or end there, and a tick no longer used by any range is not initialized.",
  ["histories"],"every sequence of operations with arbitrary overlapping, adjacent, shared-boundary and extreme ranges",
  "The invariant relates the whole history of operations to the state; tests would have to sample interleavings of mints, burns and crossings, and none do.",
  [POOL,TD],[("liquidity added in range",POOL+":modifyPosition, modifyPositionStrategy"),("gross/net update",TD+":UpdateTick, ClearTick"),("net applied at crossing",POOL+":swap")],
  [("liquidity ledger","minted minus burned per range","ghost in the specification")],["Pool.Liquidity","TickData.GetTick"])
p("C04","The current tick always matches the current price",
  "In every reachable state the price lies between the price of the current tick and that of the next tick; it equals the upper end only directly after a downward swap that stopped exactly there, and which of its two ticks a price on such an end belongs to changes only by crossing it. Opening a pool places it on the tick of its price, and minting, burning, collecting, flashing and cloning change neither price nor tick.",
  ["histories","inputs"],"every start price in the admissible range and every sequence of operations",
  "Only states sitting exactly on tick boundaries distinguish right from wrong, and no test inspects any.",
  [POOL,TM],[("tick after each step",POOL+":swap"),("initial tick",POOL+":NewPool"),("tick of a price",TM+":GetTickAtSqrtRatio")],(),["Pool.TickCurrent","Pool.SqrtRatioX96"])
p("C05","Minting and burning move exactly the right token amounts",
  "Minting liquidity charges, and burning it credits, exactly the amounts of the two tokens that the Uniswap v3 formulas give for the range and the current price: only token0 above the price, only token1 below it, both inside. Minted amounts are rounded up and burned amounts down, so minting and burning at once never gains a unit.",
  ["inputs","histories"],"every price, range within the tick bounds and liquidity up to uint128, in pools in any reachable state",
  NOPOOL,[POOL,SQ],[("case split on the current tick",POOL+":modifyPositionStrategy"),("rounding by sign",SQ+":GetAmount0DeltaRounded, GetAmount1DeltaRounded")],(),["return values of MintStrategy/BurnStrategy","tokens credited to the position"])
p("C06","Fees go to in-range positions, pro rata and exactly",
  "Swap and flash fees accrue only to liquidity that is in range when they are paid, in proportion to its share, and each position is credited exactly what the Uniswap v3 fee-growth accounting yields since its last update. Nothing is credited for periods out of range or before the position existed, and nothing is credited twice.",
  ["histories"],"every interleaving of swaps, flashes, mints, burns, pokes and collects over arbitrary overlapping ranges",
  "Fee entitlement depends on which ticks were initialized when and which side of the price they were on; it needs multi-step histories, none of which are tested.",
  [POOL,TD,POS],[("growth outside flips at a crossing",TD+":Cross"),("growth inside a range",TD+":GetFeeGrowthInside"),("initial growth outside",TD+":makeTick"),("credit",POS+":Update")],
  [("fee growth","per-liquidity fees, global, outside ticks and at last update",POOL+", "+TD+", "+POS)],["TokensOwed of positions","FeeGrowthGlobal","FeeGrowthOutside of ticks"])
p("C07","Each tick range has its own position, and only its own",
  "Operations on one tick range read and change only that range's position: two different ranges never share liquidity, fee snapshots or owed tokens, and the same range always addresses the same position. Anonymous market liquidity changes no position.",
  ["inputs","histories"],"all pairs of ranges with bounds in [-887272, 887272], and all operation sequences over them",
  "Identity must hold for all pairs of ~10^12 ranges; collisions only show for particular pairs.",
  [POOL],[("position lookup",POOL+":updatePosition, CollectStrategy")],[("positions","map from range to position",POOL+":Pool.Positions")],["Pool.Positions before and after each call"])
p("C08","Collecting pays exactly what is owed, exactly once",
  "Collecting pays out exactly the tokens credited to the position so far and sets them to zero, so collecting again without new credits pays nothing. Collecting changes nothing else: no liquidity, no fee snapshot, no other position and no market state.",
  ["histories"],"every reachable position state, any number of repeated collects in any order",
  NOPOOL,[POOL,POS],[("pay and reset",POOL+":CollectStrategy")],(),["return values of CollectStrategy","positions before/after"])
p("C09","Flash loans only add their fee, to the liquidity in range",
  "A flash of any two amounts raises each token's global fee growth by exactly the rounded-up fee on that amount divided by the active liquidity (rounded down), and changes nothing else in the pool. A flash against zero active liquidity is refused.",
  ["inputs","histories"],"all amounts up to uint128, every fee tier, every reachable pool",
  NOPOOL,[POOL],[("fee growth",POOL+":Flash")],(),["FeeGrowthGlobal before/after"])
p("C10","No operation sequence pays out more than was paid in",
  "At every point of every history the tokens paid into a pool (mints, swap inputs, flash fees) minus those paid out cover everything that can still be withdrawn: all principal of all ranges, all credited tokens and all uncollected fees of positions. No round trip of swaps, mints, burns and collects yields a profit against an otherwise idle pool.",
  ["histories"],"every sequence of operations by any number of participants, for both tokens",
  "A conservation law over unbounded histories; one wrong rounding direction leaks a single unit only in particular states.",
  [POOL,SQ,SM,POS],[("rounding directions",SQ+", "+SM),("owed accounting",POS+":Update")],[("balances","tokens the pool must hold","ghost in the specification")],["all returned amounts and the pool state"])
p("C11","Clones are independent and arguments are never modified",
  "A cloned pool has exactly the state of the original, and afterwards no operation on either can be observed through the other. No operation changes the numbers its caller passed in, values it returned before, or constants and tick tables shared by all pools.",
  ["histories","inputs"],"every reachable pool state, every operation sequence interleaved over a pool and its clones (and clones of clones)",
  "Sharing only shows when a particular field is later mutated in place through one copy; no test clones a pool.",
  [POOL,TD,POS,"lib/constants/constants.go",TM],[("deep copies",POOL+":Clone, "+TD+":Clone, "+POS+":Clone"),("arguments are copied before in-place arithmetic",POOL+":swap")],(),["both pools after every operation","arguments after every operation"])
p("C12","Inadmissible requests are refused and leave the pool unchanged",
  "Minting zero or negative liquidity, an inverted or empty range, a range beyond the tick bounds, burning more than a position or tick holds, a zero swap, a limit on the wrong side or outside the price bounds, a flash without liquidity, and opening a pool outside the price or fee bounds are all refused. A refused request leaves every part of the pool exactly as it was, and admissible requests are never refused.",
  ["inputs","histories"],"every inadmissible argument in every reachable state, and every admissible one",
  "Requires every state times every bad argument; "+NOPOOL[0].lower()+NOPOOL[1:],
  [POOL,TD,TM,"lib/invariant/invariant.go"],[("guards",POOL+":checkTicks, MintStrategy, BurnStrategy, Burn, swap, Flash"),("bounds",TM+":GetTickAtSqrtRatio")],(),["refusal (panic) or normal return","pool before/after"])
p("C13","Tick and price convert exactly, both ways, over the whole range",
  "For every tick in [-887272, 887272] the price is exactly the Uniswap v3 value, strictly increasing in the tick; for every admissible price the tick is the largest one whose price does not exceed it, and other prices are refused. Aligning a tick to the spacing rounds to the nearest (halves away from zero), the next higher or the next lower multiple for every tick and spacing.",
  ["inputs"],"all 1,774,545 ticks and all 160-bit prices",
  "The tests of this package test a helper of their own; no conversion is checked anywhere.",
  [TM],[("table",TM+":getSqrtRatioAtTick, initTickMath"),("search",TM+":GetTickAtSqrtRatio"),("alignment",TM+":Round, Ceil, Floor")],(),["GetSqrtRatioAtTick, GetTickAtSqrtRatio, Round, Ceil, Floor"])
p("C14","The next initialized tick is found within one 256-tick word",
  "For every set of initialized ticks, start tick and direction, the search returns the nearest initialized tick at or below (or strictly above) the start within the same 256-spacing word of the spacing grid, and otherwise that word's boundary marked as not initialized. Negative ticks are treated by the same floor-based grid, and inserting or clearing a tick never disturbs the others or their order.",
  ["inputs","histories"],"all tick sets, start ticks in the whole range, directions and spacings 10, 60, 200",
  "Off-by-one and sign errors show only at word boundaries and for negative ticks; there is no test.",
  [TD],[("search",TD+":NextInitializedTickWithinOneWord, nextInitializedTick, binarySearch"),("ordered insertion/removal",TD+":UpdateTick, ClearTick, binarySearch2")],[("ticks","ordered initialized ticks",TD+":TickData")],["NextInitializedTickWithinOneWord, GetTick after UpdateTick/ClearTick"])
p("C15","Price arithmetic is full-precision with the right rounding",
  "Multiply-then-divide is exact floor (or ceiling) of the 512-bit product; amounts between two prices, the next price after an input or output, and a single swap step equal the Uniswap v3 formulas for all inputs. Rounding always favours the pool: a step never takes more than the remaining input or gives more than the remaining output, and the price never passes the target.",
  ["inputs"],"all operands for which the results fit 256 bits: prices in the admissible range, liquidity up to uint128, amounts up to 2^255-1, all fees below 100%",
  "Two single-vector tests; overflow fallbacks and rounding corner cases are never reached.",
  [FM,SQ,SM],[("mulDiv",FM),("amount deltas and next price",SQ),("step",SM+":ComputeSwapStep")],(),["return values"])
p("C16","Liquidity for given amounts is affordable and maximal",
  "The liquidity computed for two token amounts and a range equals the Uniswap v3 periphery value, can always be minted without exceeding either amount, and the amounts computed for a liquidity equal what burning it pays. The order of the two range prices does not matter, and prices outside the range use only the one token.",
  ["inputs"],"all prices, ranges and amounts for which the results fit the contract's types",
  "No test exists for this package.",
  [LA],[("liquidity",LA+":GetLiquidityForAmount"),("amounts",LA+":GetAmountsForLiquidity")],(),["return values, and the mint they lead to"])
p("C17","Strategies conserve their assets",
  "For every strategy, after any sequence of start, rebalances, market activity, valuations and liquidations, its idle assets plus what its positions can withdraw equal what it started with plus fees earned plus the effect of its own swaps, and idle assets never go negative. Liquidating returns everything and leaves no position behind, so liquidating again returns the same; rebalancing reports the assets it held after liquidating.",
  ["histories","configurations"],"all twelve strategies, any parameters, start assets (including zero) and market histories",
  "No test constructs a strategy.",
  [ST],[("burn and collect every position",ST+"*.go:BurnAll, Rebalance"),("mint what is affordable",ST+"*.go:mintPosition")],[("idle assets","Amount0/Amount1",ST)],["Init, Rebalance, BurnAll, GetAmounts results","strategy pool"])
p("C18","Strategies place their liquidity where their rule says",
  "After start and after each rebalance the strategy's only positions are those its documented rule gives for the current price, spacing, price history and its parameters (full range, fixed or re-centred interval, second interval, limit order beside the price, average- or volatility-based bands), each with the maximal affordable (or half, for limit orders) liquidity, and it swaps only in the variant that says so. No position is minted when the assets buy no liquidity.",
  ["configurations","histories"],"all twelve strategies, all parameters, prices (including negative ticks and ticks on the spacing grid) and price histories",
  "No test constructs a strategy.",
  [ST,TM],[("placement",ST+"*.go:Init, Rebalance, setPositions, getTicks")],(),["ticks and positions of the strategy pool after each call"])
p("C19","A backtest follows its schedule",
  "The strategy starts exactly once, at the first transaction at or after the start time; price snapshots, value snapshots and rebalances happen before a transaction is applied, in that order, at the first transaction at or after each multiple of their own interval, at most one each per transaction. Nothing at all happens for transactions after the end time, and the run ends with exactly one liquidation and a final value snapshot.",
  ["histories","configurations"],"all transaction histories with arbitrary timestamps (bursts, gaps, ties), start/end times and intervals",
  "Schedules depend on timestamp patterns; no test runs the executor.",
  [EX],[("event loop",EX+":Run")],[("next update/snapshot","timers",EX+":Run")],["calls the strategy receives and AmountUSDSnapshots"])
p("C20","A backtest replays every transaction, in order, as what it is",
  "Each transaction up to the end time is applied to the strategy's pool exactly once and in order: mints and burns with their range and liquidity, swaps as an exact-input swap of whichever amount is positive, flashes with their amounts; other kinds have no effect. The caller's pool and transactions are left untouched.",
  ["histories"],"all transaction histories",
  "No test runs the executor.",
  [EX,POOL],[("dispatch",EX+":Run")],(),["pool state at each strategy call and at the end"])
p("C21","Portfolio values are exact at the moment of the snapshot",
  "Every recorded value is the amount of token0 plus the amount of token1 converted at the pool's price at that moment, rounded down: the start value from the assets at start, the periodic values from the assets including open positions, the last from the liquidated assets. The number and order of recorded values match the schedule.",
  ["histories","inputs"],"all amounts, prices whose square fits 256 bits, and histories",
  "No test runs the executor.",
  [EX,LA],[("conversion",EX+":Run"),("open positions",ST+"*.go:GetAmounts")],[("snapshots","recorded values",EX+":Execution.AmountUSDSnapshots")],["AmountUSDSnapshots"])
p("C22","Runs are deterministic and isolated from each other",
  "Running many executions at once that were built from the same pool, start amounts and transactions gives each exactly the result it gives alone, in any interleaving, and repeated runs give the same result. Runs do not change the shared pool, amounts or transactions.",
  ["schedules","configurations"],"every interleaving of any number of concurrent executions, each strategy and configuration",
  "Interference needs a particular schedule and a shared mutable value; no test runs anything concurrently.",
  ["main.go",EX,ST,POOL],[("each strategy clones the pool",ST+"*.go:New*"),("results written to own slot","main.go:runAndAppend")],(),["results of concurrent and solitary runs"])
p("C23","Price history gives exact window average and volatility",
  "The average is the integer mean of the squared prices over the last N snapshots (missing ones count as zero), and the volatility the integer square root of their sample variance, for any N and any number of snapshots. A price whose square would not fit is refused, and snapshots never alias the live price.",
  ["histories","inputs"],"all window sizes above one and all sequences of snapshots, including more than one turn of the window",
  "No test exists for this package.",
  [PR],[("ring buffer",PR+":Add"),("statistics",PR+":Average, Volatility")],[("window","last N squared prices",PR+":Prices")],["Average, Volatility"])
p("C24","Transactions survive being written and read back",
  "Every transaction written as JSON carries exactly the fields of its kind under the documented names, with all amounts as signed decimal numbers, and reading it back yields the same kind, range, amounts, price, tick, time and identity. Negative amounts, zero ticks and 256-bit values are preserved.",
  ["inputs"],"all transactions of the four kinds with any values",
  "No test writes or reads a transaction without the absent data files.",
  [TX,"main.go","uint256/conversion.go"],[("writing",TX+":MarshalJSON"),("reading","main.go:getTransactions, stringToUint256")],(),["JSON text and the run the program makes from it"])
p("C25","Saved results report each run's true metrics",
  "The program saves exactly one result per parameter, in order, together with the start and end time of the history, and every result's end amount, return, maximum drawdown, standard and downward deviations and value at risk (hourly, daily, weekly) are the textbook statistics of that run's recorded values. All numbers are finite, and results that cannot be saved are reported rather than lost.",
  ["inputs","configurations"],"all histories, update intervals and value series, including constant, short and falling ones",
  "The metrics are computed in functions no test calls, from histories that are absent.",
  ["main.go","lib/result/result.go"],[("metrics","main.go:calculate*, runAndAppend, createResult"),("saving","main.go:saveFile")],(),["results/<file> written by the program"])
p("C26","256-bit integer arithmetic is exact modulo 2^256",
  "Every arithmetic, comparison, shift and bit operation of the 256-bit integer type gives the exact mathematical result modulo 2^256 (two's complement for the signed ones), with overflow reported where promised and zero for division by zero, even when result and operands are the same object; operands that are not the result are unchanged. Conversions from and to big integers, bytes, hexadecimal and text are exact inverses and accept only well-formed input.",
  ["inputs"],"all 256-bit operands (limb boundaries, carries, quotient corrections), all aliasing patterns, all texts",
  "Random vectors sample 2^512 operand pairs; quotient-correction and carry paths are hit with vanishing probability and aliasing is tested for few operations.",
  ["uint256/uint256.go","uint256/div.go","uint256/mod.go","uint256/conversion.go"],[("limb arithmetic","uint256/uint256.go"),("division","uint256/uint256.go:Udivrem, uint256/div.go"),("conversion","uint256/conversion.go")],(),["results of every exported operation"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P: assert len(x["title"])<=80, x["id"]
print(len(P))
