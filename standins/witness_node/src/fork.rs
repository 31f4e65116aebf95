use mina_consensus::common::*;
use mina_consensus::error::ConsensusError;
use mina_rs_base::consensus_state::ConsensusState;
use mina_rs_base::protocol_state::*;
use mina_rs_base::types::Length;
use proof_systems::mina_hasher::Fp;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Header {
    pub state: ConsensusState,
    pub constants: ProtocolConstants,
    pub hash: Fp,
}

impl ProtocolStateHeader for Header {
    fn get_height(&self) -> Length {
        self.state.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.state.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.state.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.state
    }
    fn constants(&self) -> &ProtocolConstants {
        &self.constants
    }
    fn state_hash_fp(&self) -> Fp {
        self.hash
    }
}

pub type Chain = ProtocolStateChain<Header>;

pub fn push(chain: &mut Chain, new: Header) -> Result<(), ConsensusError> {
    chain.push(new)
}
pub fn select_longer(chain: &mut Chain, candidate: Chain) -> Result<(), ConsensusError> {
    chain.select_longer_chain(candidate)
}
pub fn is_short_range(chain: &Chain, candidate: &Chain) -> Result<bool, ConsensusError> {
    chain.is_short_range(candidate)
}
pub fn density(chain: &Chain, other: &Chain) -> Result<u32, ConsensusError> {
    chain.relative_min_window_density(other)
}

fn with(old: Vec<Header>, mut top: Header, densities: Vec<Length>) -> Chain {
    top.state.sub_window_densities = densities;
    let mut v = old;
    v.push(top);
    ProtocolStateChain(v)
}
pub fn select_none(chain: &mut Chain) -> Result<(), ConsensusError> {
    chain.select_secure_chain(vec![])
}
pub fn select_10(chain: &mut Chain, old: Vec<Header>, top: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32) -> Result<(), ConsensusError> {
    chain.select_secure_chain(vec![with(old, top, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9)])])
}
pub fn select_11(chain: &mut Chain, old: Vec<Header>, top: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<(), ConsensusError> {
    chain.select_secure_chain(vec![with(old, top, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)])])
}
pub fn select_12(chain: &mut Chain, old: Vec<Header>, top: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32, d11: u32) -> Result<(), ConsensusError> {
    chain.select_secure_chain(vec![with(old, top, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10), Length(d11)])])
}
pub fn select_two(chain: &mut Chain, o1: Vec<Header>, t1: Header, o2: Vec<Header>, t2: Header, d: u32, e: u32) -> Result<(), ConsensusError> {
    let a = with(o1, t1, vec![Length(d), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0)]);
    let b = with(o2, t2, vec![Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(0), Length(e)]);
    chain.select_secure_chain(vec![a, b])
}
pub fn select_any(chain: &mut Chain, candidates: Vec<Chain>) -> Result<(), ConsensusError> {
    chain.select_secure_chain(candidates)
}
fn at(old: Vec<Header>, mut top: Header, slot: u32, densities: Vec<Length>) -> Chain {
    top.state.curr_global_slot.slot_number = mina_rs_base::types::GlobalSlotNumber(slot);
    with(old, top, densities)
}
pub fn density_at_0_0(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 0, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 0, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1438_1439(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1438, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1439, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1439_1439(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1439, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1439, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1439_1440(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1439, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1440, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1440_1439(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1440, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1439, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1440_1440(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1440, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1440, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_0_1440(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 0, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1440, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1500_1500(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1500, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1500, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_1503_1507(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 1503, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1507, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_1000(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 1000, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_2007(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 2007, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_2040(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 2040, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_2076(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 2076, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_2077(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 2077, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_2000_2100(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 2000, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 2100, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_7139_7141(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 7139, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 7141, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_4294967290_4294967295(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 4294967290, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 4294967295, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_4294967295_0(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 4294967295, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 0, vec![]);
    a.relative_min_window_density(&b)
}
pub fn density_at_0_4294967295(old: Vec<Header>, top: Header, other: Header, d0: u32, d1: u32, d2: u32, d3: u32, d4: u32, d5: u32, d6: u32, d7: u32, d8: u32, d9: u32, d10: u32) -> Result<u32, ConsensusError> {
    let a = at(old, top, 0, vec![Length(d0), Length(d1), Length(d2), Length(d3), Length(d4), Length(d5), Length(d6), Length(d7), Length(d8), Length(d9), Length(d10)]);
    let b = at(vec![], other, 4294967295, vec![]);
    a.relative_min_window_density(&b)
}
