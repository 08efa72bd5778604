//! Plain run-length encoding with the crate's own slice type
use crate::report::{Outcome, Runner};
use crate::rng::Rng;
use crate::{ensure, rng, world};
use sherman::param::*;
use sherman::{Constant, RleTree};

/// The crate's own slice type, against a plain sequence of values: runs of equal values are one entry
pub fn constant<P, const M: usize>(r: &mut Runner, n: u64, steps: usize)
where
    P: RleTreeConfig<usize, Constant<u8>, M> + SupportsInsert<usize, Constant<u8>, M>,
{
    r.config(&format!("constant/{}/M{M}", std::any::type_name::<P>().rsplit(':').next().unwrap()), n, |seed, logging, log| {
        let mut g = Rng::new(seed);
        let alpha = g.range(2, 6);
        let mut t: RleTree<usize, Constant<u8>, P, M> = RleTree::new_empty();
        let mut v: Vec<u8> = vec![];
        let mut st = world::Stats::default();
        let mut h = seed;
        for _ in 0..steps {
            if v.len() > 600 {
                break;
            }
            let at = if g.chance(1, 5) { v.len() } else { g.below(v.len() + 1) };
            // (equal neighbours are one entry, so an insertion never joins two existing ones)
            let c = g.below(alpha) as u8;
            let size = g.range(1, 7);
            if logging {
                log.push(format!("insert({at}, Constant({c}), {size})"));
            }
            h = rng::mix(h ^ (at as u64) << 16 ^ (c as u64) << 8 ^ size as u64);
            t.insert(at, Constant(c), size);
            v.splice(at..at, std::iter::repeat(c).take(size));
            st.op("insert_constant");
            ensure!(t.size() == v.len(), "size() = {}, expected {}", t.size(), v.len());
            // runs of the plain sequence
            let mut i = 0;
            let mut runs = 0;
            let mut it = t.iter(..);
            while i < v.len() {
                let mut j = i;
                while j < v.len() && v[j] == v[i] {
                    j += 1;
                }
                let e = it.next();
                let e = e.as_ref().map(|e| (e.range(), e.size(), e.slice().0));
                ensure!(e == Some((i..j, j - i, v[i])), "entry {runs} is {e:?}, expected {:?}", (i..j, j - i, v[i]));
                let x = g.range(i, j - 1);
                let e = t.get(x);
                ensure!((e.range(), e.slice().0) == (i..j, v[i]), "get({x}) = {:?} {}, expected {:?} {}", e.range(), e.slice().0, i..j, v[i]);
                runs += 1;
                i = j;
            }
            ensure!(it.next().is_none(), "iter(..) yields more than {runs} entries");
            ensure!(t.number_of_slices() == runs, "number_of_slices() = {}, expected {runs}", t.number_of_slices());
            st.comparisons += runs as u64;
            st.max_runs = st.max_runs.max(runs);
        }
        let nontrivial = st.max_runs > 2 * M;
        Outcome { hash: h, nontrivial, sample: format!("{} values in {} entries", v.len(), t.number_of_slices()), stats: st }
    });
}
