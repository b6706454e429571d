from gdalish import LoadGDAL, TerrainAttribute    # noqa: stand-in
