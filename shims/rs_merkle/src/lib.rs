//! Stand-in for the forked `rs_merkle`: binary tree over adjacent pairs, an odd
//! last node moves up unchanged, a proof is the missing siblings layer by layer.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    const SIZE: usize;
}
pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
    fn concat_and_hash(&self, left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        let mut c: Vec<u8> = (*left).into();
        match right {
            Some(r) => {
                let mut r: Vec<u8> = (*r).into();
                c.append(&mut r);
                self.hash(&c)
            }
            None => *left,
        }
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct MerkleTree<H> {
    layers: Vec<Vec<H>>,
    uncommitted: Vec<H>,
}
impl<H> Default for MerkleTree<H> {
    fn default() -> Self {
        Self { layers: vec![], uncommitted: vec![] }
    }
}
impl<H: Hash> MerkleTree<H> {
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self {
        self.uncommitted.append(leaves);
        self
    }
    pub fn commit<T: Hasher<Hash = H>>(&mut self, hasher: &T) {
        let mut leaves = self.layers.first().cloned().unwrap_or_default();
        leaves.append(&mut self.uncommitted);
        let mut layers = vec![leaves];
        while layers.last().unwrap().len() > 1 {
            let next = layers.last().unwrap().chunks(2).map(|p| hasher.concat_and_hash(&p[0], p.get(1))).collect();
            layers.push(next);
        }
        self.layers = layers;
    }
    pub fn root(&self) -> Option<H> {
        self.layers.last()?.first().copied()
    }
    pub fn leaves_len(&self) -> usize {
        self.layers.first().map(|l| l.len()).unwrap_or(0)
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<H> {
        let mut hashes = vec![];
        for (layer, missing) in siblings(indices, self.leaves_len()).into_iter().enumerate() {
            hashes.extend(missing.into_iter().map(|i| self.layers[layer][i]));
        }
        MerkleProof { hashes }
    }
}
/// Per layer below the root, the indices needed besides those known.
fn siblings(indices: &[usize], leaves: usize) -> Vec<Vec<usize>> {
    let mut known: Vec<usize> = indices.to_vec();
    let mut n = leaves;
    let mut out = vec![];
    while n > 1 {
        out.push(known.iter().map(|i| i ^ 1).filter(|s| *s < n && !known.contains(s)).collect());
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
        n = n.div_ceil(2);
    }
    out
}
#[derive(Clone, Serialize, Deserialize)]
pub struct MerkleProof<H> {
    hashes: Vec<H>,
}
impl<H: Hash> MerkleProof<H> {
    pub fn verify<T: Hasher<Hash = H>>(&self, hasher: &T, root: H, indices: &[usize], leaves: &[H], count: usize) -> bool {
        if indices.len() != leaves.len() || indices.is_empty() || indices.iter().any(|i| *i >= count) {
            return false;
        }
        let mut rest = self.hashes.iter();
        let mut layer: BTreeMap<usize, H> = indices.iter().copied().zip(leaves.iter().copied()).collect();
        let mut n = count;
        for missing in siblings(indices, count) {
            for i in missing {
                let Some(h) = rest.next() else { return false };
                layer.insert(i, *h);
            }
            let mut next = BTreeMap::new();
            for i in layer.keys().map(|i| i / 2).collect::<std::collections::BTreeSet<_>>() {
                let Some(l) = layer.get(&(2 * i)) else { return false };
                let r = layer.get(&(2 * i + 1));
                if r.is_none() && 2 * i + 1 < n {
                    return false;
                }
                next.insert(i, hasher.concat_and_hash(l, r));
            }
            layer = next;
            n = n.div_ceil(2);
        }
        layer.get(&0) == Some(&root)
    }
}
