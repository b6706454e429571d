SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS PSplit PVapour PBooks PColumn PSurplus PAges PRemesh PMelt PTracker PPercolation PRefreezing PConduction PCompaction PShortwave PAlbedo PRoughness PSurface PInit Emit
