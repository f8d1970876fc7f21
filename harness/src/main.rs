fn main(){ harness::poseidon::kat(); println!("ok"); }
