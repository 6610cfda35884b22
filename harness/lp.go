package main

import "math"

// dd is a number of about 31 digits.
type dd struct{ hi, lo float64 }

func twoSum(a, b float64) (s, e float64) {
	s = a + b
	bb := s - a
	return s, (a - (s - bb)) + (b - bb)
}

func (a dd) add(b dd) dd {
	s, e := twoSum(a.hi, b.hi)
	t, f := twoSum(a.lo, b.lo)
	e += t
	s, e = quick(s, e)
	e += f
	s, e = quick(s, e)
	return dd{s, e}
}

func quick(a, b float64) (s, e float64) {
	s = a + b
	return s, b - (s - a)
}

func (a dd) neg() dd { return dd{-a.hi, -a.lo} }

func (a dd) mul(b dd) dd {
	p := a.hi * b.hi
	e := math.FMA(a.hi, b.hi, -p)
	e += a.hi*b.lo + a.lo*b.hi
	p, e = quick(p, e)
	return dd{p, e}
}

func (a dd) div(b dd) dd {
	q := a.hi / b.hi
	r := a.add(b.mul(dd{-q, 0}))
	q2 := r.hi / b.hi
	r = r.add(b.mul(dd{-q2, 0}))
	q3 := r.hi / b.hi
	s, e := quick(q, q2)
	return dd{s, e}.add(dd{q3, 0})
}

func (a dd) zero() bool { return math.Abs(a.hi) < 1e-18 }

func num(x float64) dd { return dd{x, 0} }

// term is a wish: above and below are the prices of the linear form being one
// above or below the value.
type term struct {
	coef         map[int]dd // by variable
	value        dd
	above, below float64
}

// cheapest returns the minimum of the prices of all terms over all non-negative
// vectors of n variables whose sum is total. The simplex method on a condensed
// tableau with double-double numbers; the start is total in the first variable.
func cheapest(n int, total float64, terms []term) (cost float64, x []float64, ok bool) {
	m := len(terms)
	// Columns: variables 1..n-1, then one for each term: its side that is not basic.
	// Rows: variable 0, then the basic side of each term.
	cols, rows := n-1+m, 1+m
	// Ids: 0..n-1 variables, n+2k above of term k, n+2k+1 below of term k.
	colID, rowID := make([]int, cols), make([]int, rows)
	price := func(id int) float64 {
		if id < n {
			return 0
		}
		k := (id - n) / 2
		if (id-n)%2 == 0 {
			return terms[k].above
		}
		return terms[k].below
	}
	tab := make([][]dd, rows)
	rhs := make([]dd, rows)
	for i := range tab {
		tab[i] = make([]dd, cols)
	}
	for j := 1; j < n; j++ {
		colID[j-1] = j
		tab[0][j-1] = num(1)
	}
	rowID[0] = 0
	rhs[0] = num(total)
	for k, t := range terms {
		// sum coef x - above + below = value, with x0 = total - sum of the others
		c0 := t.coef[0]
		r := t.value.add(c0.mul(num(total)).neg())
		// sum (coef_j - c0) x_j - above + below = r
		sign := 1.0
		if r.hi < 0 {
			sign = -1 // above is basic
			rowID[1+k], colID[n-1+k] = n+2*k, n+2*k+1
		} else {
			rowID[1+k], colID[n-1+k] = n+2*k+1, n+2*k
		}
		for j := 1; j < n; j++ {
			c := t.coef[j].add(c0.neg())
			if sign < 0 {
				c = c.neg()
			}
			tab[1+k][j-1] = c
		}
		tab[1+k][n-1+k] = num(-1)
		if sign < 0 {
			r = r.neg()
		}
		rhs[1+k] = r
	}
	// Reduced prices: c_j - sum c_i tab[i][j].
	red := make([]dd, cols)
	for j := range red {
		red[j] = num(price(colID[j]))
		for i := range tab {
			if p := price(rowID[i]); p != 0 && (tab[i][j].hi != 0) {
				red[j] = red[j].add(tab[i][j].mul(num(-p)))
			}
		}
	}
	for iter := 0; ; iter++ {
		if iter > 5000 {
			return 0, nil, false
		}
		// The entering column: the best, later the first, which cannot cycle.
		q, best := -1, -1e-9
		for j := range red {
			if red[j].hi < best {
				if iter > 300 {
					if q < 0 || colID[j] < colID[q] {
						q = j
					}
					continue
				}
				q, best = j, red[j].hi
			}
		}
		if q < 0 {
			break
		}
		p := -1
		var ratio dd
		for i := range tab {
			if tab[i][q].hi > 1e-15 {
				r := rhs[i].div(tab[i][q])
				if p >= 0 {
					d := r.add(ratio.neg())
					if d.hi > 1e-20 || d.hi > -1e-20 && rowID[i] > rowID[p] {
						continue
					}
				}
				p, ratio = i, r
			}
		}
		if p < 0 {
			return 0, nil, false // unbounded, which cannot be
		}
		piv := tab[p][q]
		inv := num(1).div(piv)
		for j := range tab[p] {
			if j != q && tab[p][j].hi != 0 {
				tab[p][j] = tab[p][j].mul(inv)
			}
		}
		tab[p][q] = inv
		rhs[p] = rhs[p].mul(inv)
		for i := range tab {
			f := tab[i][q]
			if i == p || f.hi == 0 {
				continue
			}
			g := f.neg()
			for j := range tab[i] {
				if j == q || tab[p][j].hi == 0 {
					continue
				}
				v := tab[i][j].add(tab[p][j].mul(g))
				if v.zero() {
					v = dd{}
				}
				tab[i][j] = v
			}
			tab[i][q] = inv.mul(g)
			rhs[i] = rhs[i].add(rhs[p].mul(g))
			if rhs[i].zero() {
				rhs[i] = dd{}
			}
		}
		f := red[q].neg()
		for j := range red {
			if j != q && tab[p][j].hi != 0 {
				red[j] = red[j].add(tab[p][j].mul(f))
			}
		}
		red[q] = inv.mul(f)
		colID[q], rowID[p] = rowID[p], colID[q]
	}
	x = make([]float64, n)
	sum := dd{}
	for i, id := range rowID {
		if id < n {
			x[id] = rhs[i].hi
		} else {
			sum = sum.add(rhs[i].mul(num(price(id))))
		}
	}
	return sum.hi, x, true
}
