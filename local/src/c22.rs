//! C22: the pubsub, as an actor and used directly. The model is shared with the broker and the bus, see hub.rs.
use pbt::Session;

pub fn run(s: &mut Session) {
    crate::hub::run(s, crate::hub::Which::PubSub(false));
}
