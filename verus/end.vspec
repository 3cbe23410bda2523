//@ text
} // verus!
//@ end
