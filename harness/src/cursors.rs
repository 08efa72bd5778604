//! Cursor implementations used as probes.
use crate::faults::{tick, Site};
use sherman::{Cursor, PathComponent};

/// Records the full path
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct VecCursor(pub Vec<PathComponent>);

impl Cursor for VecCursor {
    fn new_empty() -> Self {
        tick(Site::Cursor);
        VecCursor(Vec::new())
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        tick(Site::Cursor);
        self.0.push(c);
    }
    type PathIter = PathIter;
    fn into_path(self) -> PathIter {
        tick(Site::Cursor);
        PathIter { rest: self.0, tail: TAIL.with(|t| t.replace(Tail::End)), last: None }
    }
}

/// What a path does after its last component
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tail {
    End,
    /// repeats the last component for ever
    Endless,
    /// ends, and then goes on with the last component: every other call yields `None`
    Unfused,
}
thread_local! {
    static TAIL: std::cell::Cell<Tail> = const { std::cell::Cell::new(Tail::End) };
}
/// The path that is iterated over next will end like this
pub fn set_tail(t: Tail) {
    TAIL.with(|x| x.set(t))
}

pub struct PathIter {
    rest: Vec<PathComponent>,
    tail: Tail,
    last: Option<PathComponent>,
}
impl Iterator for PathIter {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        tick(Site::Cursor);
        if let Some(c) = self.rest.pop() {
            self.last = Some(c);
            return Some(c);
        }
        match self.tail {
            Tail::End => None,
            Tail::Endless => self.last,
            Tail::Unfused => {
                self.rest.extend(self.last);
                None
            }
        }
    }
}

impl VecCursor {
    /// Root-to-leaf components
    pub fn path(&self) -> Vec<PathComponent> {
        self.0.iter().rev().copied().collect()
    }
    pub fn from_root_first(mut v: Vec<PathComponent>) -> Self {
        v.reverse();
        VecCursor(v)
    }
}


/// Path components harvested from a very wide tree: raw material for adversarial cursors
pub fn harvest() -> Vec<PathComponent> {
    #[cfg(not(miri))]
    const W: (usize, usize) = (127, 6000);
    #[cfg(miri)]
    const W: (usize, usize) = (3, 60);
    use sherman::{Constant, RleTree};
    let mut t: RleTree<usize, Constant<u32>, sherman::param::NoFeatures, { W.0 }> = RleTree::new_empty();
    // enough entries for the root to have many children
    for i in 0..W.1 {
        t.insert(i, Constant(i as u32), 1);
    }
    let mut v: Vec<PathComponent> = Vec::new();
    for e in t.iter(..) {
        let c: VecCursor = e.cursor();
        for p in c.0 {
            if v.last() != Some(&p) {
                v.push(p);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// What the paths of all entries, in order, say about the tree's shape
#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Shape {
    pub height: usize,
    pub nodes: usize,
    pub entries: usize,
    pub min_nonroot_keys: usize,
    pub max_keys: usize,
    pub hash: u64,
}

/// Reconstructs the tree shape from the in-order list of entry paths. Components are opaque ordered
/// labels. `Err` if no tree has these paths.
pub fn parse_shape(paths: &[Vec<PathComponent>]) -> Result<Shape, String> {
    let mut s = Shape { min_nonroot_keys: usize::MAX, ..Shape::default() };
    let mut pos = 0;
    let mut leaf_depth = None;
    let mut prefix = Vec::new();
    node(paths, &mut pos, &mut prefix, &mut s, &mut leaf_depth)?;
    if pos != paths.len() {
        return Err(format!("path #{pos} {:?} does not continue an in-order traversal", paths[pos]));
    }
    s.height = leaf_depth.unwrap_or(0);
    s.entries = paths.len();
    Ok(s)
}

fn node(
    paths: &[Vec<PathComponent>],
    pos: &mut usize,
    prefix: &mut Vec<PathComponent>,
    s: &mut Shape,
    leaf_depth: &mut Option<usize>,
) -> Result<(), String> {
    let (mut keys, mut children) = (0usize, 0usize);
    let mut last: Option<PathComponent> = None;
    let mut last_was_child = false;
    while *pos < paths.len() {
        let p = &paths[*pos];
        if p.len() > prefix.len() && p[..prefix.len()] == prefix[..] {
            let c = p[prefix.len()];
            if last_was_child {
                return Err(format!("two children without an entry between them at {prefix:?} (entry {pos})"));
            }
            if matches!(last, Some(l) if l >= c) {
                return Err(format!("child label {c:?} out of order under {prefix:?} (entry {pos})"));
            }
            if keys != children {
                return Err(format!("node {prefix:?} has entries both with and without a child between them"));
            }
            last = Some(c);
            last_was_child = true;
            children += 1;
            prefix.push(c);
            node(paths, pos, prefix, s, leaf_depth)?;
            prefix.pop();
        } else if p[..] == prefix[..] {
            keys += 1;
            last_was_child = false;
            *pos += 1;
        } else {
            break;
        }
    }
    if keys == 0 {
        return Err(format!("node {prefix:?} holds no entry"));
    }
    if children == 0 {
        match *leaf_depth {
            None => *leaf_depth = Some(prefix.len()),
            Some(d) if d == prefix.len() => (),
            Some(d) => return Err(format!("leaves at depths {d} and {}", prefix.len())),
        }
    } else if children != keys + 1 {
        return Err(format!("node {prefix:?} has {keys} entries but {children} children"));
    }
    s.nodes += 1;
    s.max_keys = s.max_keys.max(keys);
    if !prefix.is_empty() {
        s.min_nonroot_keys = s.min_nonroot_keys.min(keys);
    }
    s.hash = crate::rng::mix(s.hash ^ (keys as u64) << 8 ^ prefix.len() as u64);
    Ok(())
}
