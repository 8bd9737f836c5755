"""Which specification and which driver decide which property."""
from vh.runner import prop

ASSUMPTIONS = ['lenstronomy is replaced by /verif/stubs/lenstronomy (same formulae, quadrature where lenstronomy has long closed forms)']

REAL_T = [('realization', 'histories', 'RealizationTrace')]
REAL_M = [('RealizationMC', 'RealizationMC')]
for p in ('C01', 'C02', 'C03', 'C04', 'C06'):
    prop(p, REAL_T, REAL_M)

POP_M = [('PopulationMC', 'PopulationMC')]
prop('C05', [('population', 'populations', 'PopulationTrace')], POP_M)
prop('C09', [('population', 'populations', 'PopulationTrace')], POP_M)
prop('C10', [('population', 'planes', 'PopulationTrace')], POP_M)
prop('C11', [('population', 'massfunctions', 'PopulationTrace')], POP_M)
prop('C12', [('population', 'geometry', 'PopulationTrace')], POP_M)
prop('C13', [('population', 'spatial', 'PopulationTrace')], POP_M)

HALO_M = [('HaloMC', 'HaloMC')]
prop('C07', [('halos', 'histories', 'HaloTrace')], HALO_M)
prop('C08', [('halos', 'histories', 'HaloTrace')], HALO_M)
prop('C24', [('halos', 'laws', 'HaloTrace')], HALO_M)
prop('C28', [('batch', 'equal_values', 'HaloTrace'), ('batch', 'distributions', 'HaloTrace')], HALO_M)

MODELS_M = [('ModelsMC', 'ModelsMC')]
prop('C16', [('models', 'concentrations', 'ModelsTrace')], MODELS_M)
prop('C17', [('models', 'truncations', 'ModelsTrace')], MODELS_M)
prop('C18', [('models', 'infall', 'ModelsTrace')], MODELS_M)
prop('C19', [('models', 'names', 'ModelsTrace')], MODELS_M)

EXT_M = [('ExtMC', 'ExtMC')]
prop('C14', [('ext', 'conversions', 'ExtTrace'), ('ext', 'probabilities', 'ExtTrace')], EXT_M)
prop('C15', [('ext', 'conversions', 'ExtTrace'), ('ext', 'probabilities', 'ExtTrace'), ('ext', 'additions', 'ExtTrace')], EXT_M)
prop('C27', [('ext', 'blackholes', 'ExtTrace')], EXT_M)

prop('C20', [('session', 'sessions', 'SessionTrace')], [('SessionMC', 'SessionMC')])
prop('C21', [('preset', 'requests', 'PresetTrace')], [('PresetMC', 'PresetMC')])

CAT_M = [('CatalogMC', 'CatalogMC')]
prop('C22', [('catalog', 'files', 'CatalogTrace')], CAT_M)
prop('C25', [('catalog', 'catalogs', 'CatalogTrace'), ('catalog', 'emulators', 'CatalogTrace')], CAT_M)

SCALES_M = [('ScalesMC', 'ScalesMC')]
prop('C23', [('scales', 'values', 'ScalesTrace')], SCALES_M)
prop('C29', [('scales', 'utilities', 'ScalesTrace')], SCALES_M)

prop('C30', [('profiles', 'views', 'ProfileTrace')], [('ProfileMC', 'ProfileMC')])
