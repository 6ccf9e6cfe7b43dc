package main

import (
	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

// the shared constants and the tick table, as they were at the start
type constants struct {
	keeper
	table []ui.Int
	calls int
}

func newConstants() *constants {
	c := &constants{}
	for _, x := range []*ui.Int{cons.NegativeOne, cons.Zero, cons.One, cons.MaxUint256, cons.Q128, cons.Q96, cons.Q192,
		cons.E6, cons.E18, tickmath.Q32, tickmath.MinSqrtRatio, tickmath.MaxSqrtRatio} {
		c.add(x)
	}
	c.table = make([]ui.Int, tickmath.MaxTick-tickmath.MinTick+1)
	for i := range c.table {
		c.table[i] = *tickmath.TM.GetSqrtRatioAtTick(i + tickmath.MinTick)
	}
	return c
}

func (c *constants) at(tick int) bool {
	if tick < tickmath.MinTick || tick > tickmath.MaxTick {
		return true
	}
	return *tickmath.TM.GetSqrtRatioAtTick(tick) == c.table[tick-tickmath.MinTick]
}

// intact compares the constants, the given table entries, and now and then the whole table.
func (c *constants) intact(ticks []int) bool {
	c.calls++
	ok := c.kept()
	for _, t := range ticks {
		ok = ok && c.at(t)
	}
	if c.calls%64 == 0 {
		for i := range c.table {
			if *tickmath.TM.GetSqrtRatioAtTick(i + tickmath.MinTick) != c.table[i] {
				ok = false
			}
		}
	}
	if !ok { // so that only the first damage is reported
		c.restore()
		for i := range c.table {
			*tickmath.TM.GetSqrtRatioAtTick(i + tickmath.MinTick) = c.table[i]
		}
	}
	return ok
}
