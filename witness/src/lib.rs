//! Only there to build the crates the witnesses are compiled against.
