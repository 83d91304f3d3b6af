mod author;
mod avail;
mod blockdb;
mod blocks;
mod crypto;
mod data;
mod incore;
mod net;
mod pvm;
mod store;
mod target;
mod wire;
use crate::eng::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = blocks::all();
    v.push(pvm::semantics());
    v.extend(author::props());
    v.extend(incore::props());
    v.extend(net::props());
    v.extend(data::props());
    v.extend(avail::props());
    v.extend(crypto::props());
    v.extend(store::props());
    v.extend(blockdb::props());
    v.extend(wire::props());
    v.extend(target::props());
    v.sort_by_key(|p| p.id);
    v
}
