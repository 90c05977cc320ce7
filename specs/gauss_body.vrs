    requires self.wf(),
    ensures r.0.wf(), r.0.rw() == self.rw(), r.0.cl() == self.cl(), echelon(r.0.mv(), self.rw() as int, self.cl() as int), same_span(self.mv(), r.0.mv(), self.cl() as int),
        r.1.fv() == 1real || r.1.fv() == -1real, self.rw() == self.cl() ==> det_by(self.mv(), r.0.mv(), self.cl() as int, r.1.fv()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost m0 = self.mv();
    let ghost (rows, cols) = (self.rw() as int, self.cl() as int);
    let ghost mut piv: Seq<int> = Seq::empty();
    proof { assert forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, cols) implies d(m0) == 1real * d(m0) by {} }
//@loop 0
    invariant __self.wf(), __self.rw() == rows, __self.cl() == cols, shape(__self.mv(), rows, cols), __k0 <= __e0, __e0 == cols, ech(__self.mv(), piv, row as int, rows, __k0 as int),
        same_span(m0, __self.mv(), cols), factor.fv() == 1real || factor.fv() == -1real, rows == cols ==> det_by(m0, __self.mv(), cols, factor.fv()),
    decreases __e0 - __k0,
//@start 0
    let ghost ma = __self.mv();
    let ghost fa = factor.fv();
//@loop 1
    invariant row <= __k1 <= __e1, __e1 == rows, __r1 ==> forall|k: int| row <= k < __k1 ==> #[trigger] ma[k][col as int] == 0real, !__r1 ==> exists|k: int| row <= k < rows && #[trigger] ma[k][col as int] != 0real,
    decreases __e1 - __k1,
//@start 1
    proof { let _ = ma[r as int][col as int]; assert(ma[r as int][col as int] == __self.at(r as int, col as int).fv()); }
//@let all_zero#0
    proof { if all_zero { assert(ech(__self.mv(), piv, row as int, rows, __k0 as int)); } }
//@loop 2
    invariant row <= __k1 <= __e1, __e1 == rows, __lo == row,
        __m1 is None ==> forall|k: int| row <= k < __k1 ==> #[trigger] ma[k][col as int] == 0real,
        __m1 is Some ==> 0 <= midx(__m1) && row + midx(__m1) < rows && ma[row + midx(__m1)][col as int] != 0real,
    decreases __e1 - __k1,
//@start 2
    proof { assert(ma[r as int][col as int] == __self.at(r as int, col as int).fv()); }
//@let small_idx#1
    let ghost si = small_idx as int;
//@let top#0
    let ghost mb = __self.mv();
    proof {
        if si != row {
            assert(mb =~~= swapr(ma, si, row as int));
            lemma_swap(ma, si, row as int, cols);
            if rows == cols { lemma_det_trans(m0, ma, mb, cols, fa, -1real); assert(-1real * fa == -fa); }
        } else { assert(mb =~~= ma); }
        assert(ech(mb, piv, row as int, rows, col as int));
    }
//@loop 3
    invariant __self.wf(), __self.rw() == rows, __self.cl() == cols, shape(__self.mv(), rows, cols), row + 1 <= __k1 <= __e1, __e1 == rows, ech(__self.mv(), piv, row as int, rows, col as int),
        same_span(m0, __self.mv(), cols), factor.fv() == 1real || factor.fv() == -1real, rows == cols ==> det_by(m0, __self.mv(), cols, factor.fv()),
        __self.mv()[row as int][col as int] == top.fv(), forall|k: int| row < k < __k1 ==> #[trigger] __self.mv()[k][col as int] == 0real,
    decreases __e1 - __k1,
//@start 3
    let ghost mr = __self.mv();
    let ghost fo = factor.fv();
    let ghost fx = mr[r as int][col as int] / top.fv();
    proof { assert(mr[r as int][col as int] == __self.at(r as int, col as int).fv()); }
//@loop 4
    invariant __self.wf(), __self.rw() == rows, __self.cl() == cols, col <= __k2 <= __e2, __e2 == cols,
        forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> (#[trigger] __self.at(i, j)).fv() == (if i == r && col <= j < __k2 { mr[i][j] - mr[row as int][j] * fx } else { mr[i][j] }),
    decreases __e2 - __k2,
//@end 3
    proof {
        let f = fx;
        let mn = __self.mv();
        assert forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols implies #[trigger] mn[i][j] == subr(mr, r as int, row as int, f)[i][j] by {
            assert(mn[i][j] == __self.at(i, j).fv());
            if i == r && j < col { assert(mr[r as int][j] == 0real && mr[row as int][j] == 0real); assert(0real * f == 0real) by(nonlinear_arith); }
        }
        assert(mn =~~= subr(mr, r as int, row as int, f));
        lemma_sub(mr, r as int, row as int, f, cols);
        if rows == cols { lemma_det_trans(m0, mr, mn, cols, fo, 1real); assert(1real * fo == fo); }
        let (x, t) = (mr[r as int][col as int], top.fv());
        assert(x - t * (x / t) == 0real) by(nonlinear_arith) requires t != 0real;
        assert(mn[r as int][col as int] == 0real);
        assert(ech(mn, piv, row as int, rows, col as int));
    }
//@end 0
    proof {
        let mn = __self.mv();
        let np = piv.push(col as int);
        assert(ech(mn, np, row as int, rows, __k0 as int));
        piv = np;
    }
//@tail
    proof { assert(ech(__ret.0.mv(), piv, row as int, rows, cols)); }
//@endfn
