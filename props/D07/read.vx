file crates/sail-delta-lake/src/writer/stats.rs
vrule sub std::cmp::Ordering => Ordering
vrule sub self\.unscaled\.partial_cmp\(&other\.unscaled\) => vx_cmp_i128(&self.unscaled, &other.unscaled)
vrule chain checked_add/1 => vx_checked_add($recv, $0)
type AggregatedStats

fn DecimalScalar@PartialOrd::partial_cmp
sig fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)
spec <<<
ensures r == Some(if self.unscaled < other.unscaled { Ordering::Less } else if self.unscaled == other.unscaled { Ordering::Equal } else { Ordering::Greater }),
>>>

fn DecimalScalar@PartialEq::eq
sig fn eq(&self, other: &Self) -> (r: bool)
spec <<<
ensures r == (self.unscaled == other.unscaled),
>>>

fn AggregatedStats@AddAssign::add_assign
sig fn add_assign(&mut self, rhs: Self)
spec <<<
ensures forall|a: Seq<Option<StatsScalar>>, b: Seq<Option<StatsScalar>>| #[trigger] describes(*old(self), a) && #[trigger] describes(rhs, b) ==> describes(*final(self), a + b),
>>>
before ^self\.all_null=self\.all_null <<<
proof { sle_facts();
    assert forall|a: Seq<Option<StatsScalar>>, b: Seq<Option<StatsScalar>>| #[trigger] describes(*old(self), a) && #[trigger] describes(rhs, b) implies
        bounds_ok(self.min, self.max, a + b) by { lemma_bounds(*old(self), rhs, self.min, self.max, a, b); }
}
>>>
after ^self\.null_count=match <<<
proof { sle_facts();
    assert forall|a: Seq<Option<StatsScalar>>, b: Seq<Option<StatsScalar>>| #[trigger] describes(*old(self), a) && #[trigger] describes(rhs, b) implies
        describes(*self, a + b) by { lemma_nulls(a, b); lemma_bounds(*old(self), rhs, self.min, self.max, a, b); }
}
>>>
