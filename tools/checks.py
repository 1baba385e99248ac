import chk_cases, chk_rel, chk_ses, chk_conc, chk_models, chk_fortran, chk_limits
RUN = {}
for p in chk_rel.PLAN:
    RUN[p] = chk_rel.run
for p in chk_cases.PLAN:
    RUN[p] = chk_cases.run
for p in chk_ses.PLAN:
    RUN[p] = chk_ses.run
for p in ('C01', 'C02'):
    RUN[p] = chk_conc.run
RUN['C18'] = chk_models.run
RUN['C19'] = chk_fortran.run
RUN['C20'] = chk_limits.run
