file crates/sail-logical-plan/src/range.rs
type Range v=Clone,Copy n=Clone,Copy,Debug,PartialEq
type RangeIterator v= n=Clone,Debug
vrule chain clamp/2 => vx_clamp($recv, $0, $1)
vrule chain abs/0 => vx_abs($recv)

fn Range::partition
ret r
spec <<<
requires
    self.step != 0,
    num_partitions > 0,
    num_partitions <= 0x4000_0000_0000_0000,
    partition < num_partitions,
ensures
    r.step == self.step,
    elems(r) =~= elems(*self).subrange(
        bound(count(*self), partition as int, num_partitions as int),
        bound(count(*self), partition as int + 1, num_partitions as int)),
>>>
body-start <<<
proof { lemma_partition(*self, partition as int, num_partitions as int); }
>>>

fn Range@IntoIterator::into_iter
ret r
spec <<<
ensures remaining(r) =~= elems(self), r.range.step == self.step,
>>>

fn RangeIterator@Iterator::next
ret r
spec <<<
requires old(self).range.step != 0,
ensures
    final(self).range.step != 0,
    match r {
        Some(x) => remaining(*old(self)).len() > 0
            && x == remaining(*old(self))[0]
            && remaining(*final(self)) =~= remaining(*old(self)).drop_first(),
        None => remaining(*old(self)).len() == 0 && remaining(*final(self)).len() == 0,
    },
>>>
body-start <<<
proof { lemma_next(self.range.end as int, self.range.step as int, self.current as int); }
>>>
