SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
INVARIANTS PRemesh PMergeSplit PLog PSeparate PSnow PMelt PTracker PPercolation PRefreezing PConduction PCompaction PShortwave PAlbedo PRoughness PSurface
