MODULES = {}
for _name, _ids in dict(m_curve=range(1, 8), m_rates=range(8, 15), m_market=range(15, 18), m_flows=range(18, 22),
                        m_options=range(22, 25), m_pricer=range(25, 32), m_misc=range(32, 36), m_extra=range(36, 40), m_tables=range(40, 42)).items():
    for _i in _ids:
        MODULES['C%02d' % _i] = _name
