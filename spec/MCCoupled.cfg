SPECIFICATION CSpec
CONSTANTS
 Weathers = {1, 2, 3}
 Depth = 4
 FileAlbedo = {"Oerlemans98", "Bougamont05"}
INVARIANTS SameReports
CHECK_DEADLOCK FALSE
