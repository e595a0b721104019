//! C20: the broker. The model and generators are shared with the message bus, see hub.rs.

use pbt::Session;

pub fn run(s: &mut Session) {
    crate::hub::run(s, crate::hub::Which::Broker);
}
