import specs_plat


def make():
    return specs_plat.make_glib()
