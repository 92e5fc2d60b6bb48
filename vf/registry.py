from . import checks_apps, checks_capi, checks_create, checks_data, checks_describe, checks_endtoend, checks_h5, checks_iface, checks_meta, checks_query, checks_raster

CHECKS = {}
for mod in (checks_query, checks_capi, checks_apps, checks_raster, checks_meta, checks_h5, checks_create, checks_data, checks_describe, checks_endtoend, checks_iface):
    CHECKS.update(mod.CHECKS)
