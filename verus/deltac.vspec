//@ fn DeltaContext::new
    ensures res.ini(Seq::empty(), Seq::empty(), true), res.ini(Seq::empty(), Seq::empty(), false), !res.processing_started, res.readable(),
//@ fn DeltaContext::init
    requires array_trait.delta(), array_trait.okay(), (array_trait.shape())(*element), is_delta(array_trait.num(), array_trait.enc(), array_trait.canon(), array_trait.sgn()),
        exists|s: Seq<T>| #![trigger nums(array_trait.num(), s)] old(self).ini(nums(array_trait.num(), s), lens(array_trait.enc(), s), array_trait.sgn()) && delta_small(lens(array_trait.enc(), s.push(*element))),
    ensures
        (array_trait.valid())(*element) ==> res is Ok,
        res is Ok ==> forall|s: Seq<T>| #![trigger nums(array_trait.num(), s)] old(self).ini(nums(array_trait.num(), s), lens(array_trait.enc(), s), array_trait.sgn()) && delta_small(lens(array_trait.enc(), s.push(*element))) ==>
            final(self).ini(nums(array_trait.num(), s.push(*element)), lens(array_trait.enc(), s.push(*element)), array_trait.sgn()),
//@ at DeltaContext::init start
    let ghost (num, enc, sgn) = (array_trait.num(), array_trait.enc(), array_trait.sgn());
    let ghost e = *element;
    proof {
        assert forall|s: Seq<T>| #![trigger nums(num, s)] self.ini(nums(num, s), lens(enc, s), sgn) && delta_small(lens(enc, s.push(e))) implies
            self.num_elements + 1 <= 0x100_0000_0000_0000 && enc(0, e).len() <= 0x1000_0000_0000_0000 && self.unpacked_size + enc(0, e).len() <= 0x1000_0000_0000_0000
            && 0 <= mbn(nums(num, s), s.len() as int) <= 64 by {
            seqs_push(num, enc, s, e);
            let n = s.len() as int;
            prefix_push(lens(enc, s), enc(0, e).len() as int, n);
            assert(lsum(lens(enc, s.push(e)), n + 1) <= 0x1000_0000_0000_0000);
            assert(lens(enc, s.push(e))[n] == enc(0, e).len());
            assert forall|i: int| 0 <= i < n implies num_range(sgn, #[trigger] nums(num, s)[i]) by { let v = s[i]; assert(num_range(sgn, num(v))); }
            mbn_range(nums(num, s), sgn, n);
        }
        assert(num_range(sgn, num(e)));
    }
//@ at DeltaContext::init end
    proof {
        assert forall|s: Seq<T>| #![trigger nums(num, s)] old(self).ini(nums(num, s), lens(enc, s), sgn) && delta_small(lens(enc, s.push(e))) implies
            self.ini(nums(num, s.push(e)), lens(enc, s.push(e)), sgn) by {
            let n = s.len() as int;
            seqs_push(num, enc, s, e);
            prefix_push(lens(enc, s), enc(0, e).len() as int, n);
            prefix_push(nums(num, s), num(e), n);
            if n >= 2 || n == 1 {
                assert(nums(num, s.push(e))[n - 1] == nums(num, s)[n - 1]);
                assert forall|i: int| 0 <= i < n + 1 implies num_range(sgn, #[trigger] nums(num, s.push(e))[i]) by { let v = s.push(e)[i]; assert(num_range(sgn, num(v))); }
                mbn_range(nums(num, s.push(e)), sgn, n + 1);
            }
        }
    }
