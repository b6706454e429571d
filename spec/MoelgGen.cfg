SPECIFICATION GSpec
INVARIANTS NightAndSign ShadeTakes SunInSky Flat FlatView Ordered Rising
CHECK_DEADLOCK FALSE
