"""Writes properties.jsonl and MANIFEST.json (the single place where both are edited)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'src/onepower/'


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level='model_checking', observe=()):
    assert len(title) <= 80, title
    return dict(
        p=dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        ),
        c=dict(
            property=pid,
            quick_cmd=f'/opt/venv/bin/python run.py {pid} --tier quick',
            thorough_cmd=f'/opt/venv/bin/python run.py {pid} --tier thorough',
            technique=technique,
            level=level,
            level_note=note,
        ),
    )


ALL = [
    prop(
        'C01',
        'A power-spectrum model answers like a fresh one, whatever was done to it before',
        'After any sequence of parameter updates and reads, everything that can be read from a power-spectrum model equals '
        'what a model newly constructed with the same current parameter values returns. This includes turning options on and '
        'off again, changing several parameters in one update, and reading nothing, one quantity or everything in between. '
        'Dictionary parameters are merged key by key by an update; every other parameter is replaced.',
        ['histories', 'configurations'],
        'every history of updates (each settable parameter, each option switch) and reads on one model object',
        'The tests update one or two parameters once and compare one spectrum; a stale result needs a particular pair of '
        'parameter and quantity and often a particular order, e.g. an option that was off when a result was first computed.',
        [P + 'pk.py', P + 'hmi.py', P + '_cache.py'],
        [('cached quantities with recorded parameter dependencies', P + '_cache.py, hmf._internals._cache'),
         ('update()', 'hmf._framework.Framework.update')],
        'explicit-state exploration of update/read histories of the real object (fork-snapshotted DFS), compared with a fresh object in every state',
        'Exhaustive over: every single update, every ordered pair and undo-triple with one of them an option switch, every '
        '(single quantity read, update) pair of the listed quantities, joint and unread pairs, from 5 base configurations, '
        'on tiny grids with one or more alternative values per parameter. Trusts: a freshly constructed object as the specification of a state.',
        observe=['public quantities of Spectra'],
    ),
    prop(
        'C02',
        'Every other stateful model answers like a fresh one after any updates and reads',
        'After any sequence of updates and reads, the upsampled multi-population spectra, the alignment amplitudes and '
        'satellite alignment, the non-linear halo bias table, the halo-model ingredients and the cosmology each return what a '
        'newly built object with the same current parameter values returns.',
        ['histories', 'configurations'],
        'every history of updates and reads on one object of each of these classes',
        'The tests construct each object once and update at most one parameter; which stored result is stale depends on the '
        'pair of parameter and result and on what was read before.',
        [P + 'add.py', P + 'ia.py', P + 'bnl.py', P + 'hmi.py', P + '_cache.py'],
        [('cached quantities', P + '_cache.py'), ('results()', P + 'add.py')],
        'explicit-state exploration of update/read histories of the real objects, compared with a fresh object in every state',
        'Exhaustive over all single updates, ordered pairs, undo-triples and single-read histories of the listed alphabets for '
        'five classes. The halo emulator is replaced by a deterministic analytic stand-in (its cosmology dependence is '
        'non-trivial in every parameter). Trusts a fresh object as specification.',
    ),
    prop(
        'C03',
        'Reading is pure: results do not depend on what was read before, or how often',
        'What a quantity returns does not depend on which other quantities were read before it, in which order or how often. '
        'Reading changes no parameter, no other result, and none of the arrays and dictionaries the caller passed in.',
        ['histories', 'schedules'],
        'every order (pairwise) and repetition of reads on one object of every stateful class and option branch',
        'Results are evaluated lazily and share intermediate arrays; the tests read one or two quantities of a fresh object, '
        'so an in-place change of a shared array needs a particular pair of reads in a particular order to show.',
        [P + 'pk.py', P + 'hmi.py', P + 'hod.py', P + 'ia.py', P + 'bnl.py', P + 'add.py'],
        [('lazily evaluated shared quantities', P + 'pk.py'), ('cached quantities', P + '_cache.py')],
        'exhaustive exploration of read orders (all ordered pairs, repetitions, full sweeps) on the real objects from forked snapshots',
        'Every ordered pair of public quantities per class and configuration, followed by a comparison of everything with a '
        'fresh object. Orders that need three specific reads are only covered by the full sweeps forwards and backwards.',
    ),
    prop(
        'C04',
        'Models are isolated from each other and from the caller\'s data',
        'Two models alive in one process answer as if each were alone, in every interleaving of their construction, updates '
        'and reads, including a model and its clone. Changing in place an array or dictionary that was passed in earlier does '
        'not silently change or corrupt the answers of a model, and passing the changed container again takes effect.',
        ['histories', 'schedules'],
        'every interleaving of the operations of two models, and every mutation point of every caller-owned container',
        'The tests hold one model at a time and pass fresh literals; shared defaults or aliased containers only show with two '
        'live objects or a caller who reuses its buffers, as every sampler does.',
        [P + 'pk.py', P + 'hmi.py', P + 'hod.py', P + 'ia.py', P + 'bnl.py', P + 'add.py', P + '_cache.py'],
        [('parameters copied on assignment', P + '_cache.py'), ('clone()', 'hmf._framework.Framework.clone')],
        'exhaustive exploration of the interleavings of two live models and of caller mutations (forked snapshots)',
        'All interleavings of two 3-step programs for the listed pairs of configurations and all (container, mutation point) '
        'combinations. Arrays that a model returned and the caller then overwrites are outside the claim.',
    ),
    prop(
        'C05',
        'An interrupted computation leaves nothing behind',
        'If a computation is cut short at any point by an exception or by Ctrl-C, then afterwards repeating the read, or '
        'changing parameters and reading, gives exactly what a fresh model with the current parameters gives. '
        'The parameters themselves are not altered by the interruption.',
        ['crash_points', 'histories', 'fault_sequences'],
        'every point of every computation at which a call into the library can fail, for an ordinary exception and for an interrupt',
        'No test interrupts anything; samplers catch exceptions at bad points and go on with the same object, so a half-built '
        'cache or a temporarily toggled parameter would poison every later point.',
        [P + 'pk.py', P + 'hmi.py', P + 'ia.py', P + 'bnl.py', P + 'add.py', P + '_cache.py'],
        [('cache bookkeeping', P + '_cache.py, hmf._internals._cache')],
        'exhaustive fault injection: every call/return event of the library during a computation is a crash point, each explored from a forked snapshot',
        'Every distinct function entry and (plain configuration; thorough: all) every distinct source line reached is used as interruption point, for '
        'an ordinary exception or an interrupt (thorough: both); afterwards everything is compared with a fresh object. Faults inside C code are outside the bounds.',
        level='fault_enumeration',
    ),
    prop(
        'C06',
        'The matter power spectrum is the one the halo-model equations define',
        'For every combination of non-linear treatment, halo-model ingredients, dewiggling, response, point-mass, '
        'truncation and externally supplied spectra, and at every redshift and wavenumber, the one-halo, two-halo and total '
        'matter power spectra equal the documented halo-model expressions evaluated from the model\'s own mass function, '
        'bias, profiles and linear spectrum. The linear spectrum is the supplied one when one is given.',
        ['configurations', 'inputs'],
        'every combination of the options that select a formula, times cosmologies, grids and galaxy populations',
        'The tests evaluate one default configuration and mostly check shapes; a wrong branch, factor or axis in one '
        'combination of options is invisible to them.',
        [P + 'pk.py'],
        [('matter spectrum branches', P + 'pk.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite option lattice in several cosmology/grid scenarios; oracle is an independent plain-loop '
        'implementation of the equations (vlib/refspec.py) fed with the observed ingredients (which C10 decides).',
    ),
    prop(
        'C07',
        'Galaxy-galaxy and galaxy-matter spectra are the halo-model ones in every bin',
        'For every galaxy-population model, number of bins and combination of options, the one-halo, two-halo and total '
        'galaxy-galaxy and galaxy-matter spectra and the linear galaxy bias of every bin, redshift and wavenumber equal the '
        'documented halo-model expressions for that bin\'s own central and satellite occupation.',
        ['configurations', 'inputs'],
        'every combination of galaxy population, option and redshift/wavenumber grid',
        'The tests use one population with one bin and compare shapes or signs; mixing up bins, centrals/satellites or '
        'redshifts needs several bins and an independent value to show.',
        [P + 'pk.py', P + 'hod.py'],
        [('galaxy spectra', P + 'pk.py'), ('occupation', P + 'hod.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice (populations x options x scenarios); oracle vlib/refspec.py + vlib/refhod.py.',
    ),
    prop(
        'C08',
        'Intrinsic-alignment spectra are those of the halo model in every bin',
        'For every alignment configuration, non-linear treatment, population and truncation choice, the one-halo, two-halo '
        'and total matter-shape, shape-shape and galaxy-shape spectra of every bin, redshift and wavenumber equal the '
        'documented expressions for the central and satellite alignment of that bin.',
        ['configurations', 'inputs'],
        'every combination of alignment settings, options, populations and grids',
        'The tests use one alignment configuration and one bin and check shapes; sign, damping, truncation or bin mix-ups in '
        'other combinations are not seen.',
        [P + 'pk.py', P + 'ia.py'],
        [('alignment spectra', P + 'pk.py'), ('amplitudes', P + 'ia.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; oracle vlib/refspec.py using the alignment amplitudes decided by C17.',
    ),
    prop(
        'C09',
        'Galaxy occupations and their number densities, masses and biases are consistent',
        'For every occupation model and every bin and redshift, the mean numbers of central and satellite galaxies are those '
        'of the published model with the given parameters (including assembly bias), and number densities, satellite '
        'fractions, mean halo masses, linear biases and stellar fractions are the mass-function-weighted integrals of exactly '
        'those occupations. Bins given in a file and bins given as lists describe the same populations.',
        ['configurations', 'inputs'],
        'every model, parameter setting, bin layout, unit convention and redshift grid in the bounded space',
        'The tests check one setting per model for shape and positivity; per-bin and per-redshift mix-ups or a wrong '
        'normalisation need an independent value in many settings.',
        [P + 'hod.py'],
        [('occupation models', P + 'hod.py')],
        'exhaustive walk of the model/parameter lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; oracle vlib/refhod.py (scalar, loop based). Quadrature is part of the '
        'specification (the same sampled integrals); numerical convergence is not claimed.',
    ),
    prop(
        'C10',
        'Halo-model ingredients belong to the requested cosmology, models and redshift',
        'At every requested redshift, the mass function, halo bias, profiles, concentrations, radii, overdensities, '
        'growth and baryon ingredients are those of the requested cosmology and component models evaluated at that very '
        'redshift, for every combination of component models, overdensity definitions, baryon/non-linear recipe and '
        'modification parameters.',
        ['configurations', 'inputs'],
        'every combination of cosmology, component models, definitions, recipes and redshift grids in the bounded space',
        'The tests build one default; that a quantity uses its own redshift (and not the first or last one) or that a model '
        'option is passed on only shows with several redshifts and an independent evaluation.',
        [P + 'hmi.py'],
        [('ingredients', P + 'hmi.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; oracle vlib/refing.py built on astropy/hmf/halomod components called one redshift '
        'at a time. hmf, halomod and astropy are trusted.',
    ),
    prop(
        'C11',
        'Multi-population spectra are the weighted sum on the requested grid',
        'For every combination of populations, redshift-dependent fractions, requested spectra and output grid, each '
        'returned spectrum is the sum of the two populations\' spectra with the weights appropriate to that kind of spectrum, '
        'interpolated onto exactly the requested redshifts and wavenumbers with the requested behaviour outside the input range.',
        ['configurations', 'inputs'],
        'every combination of populations, fractions, spectra subsets, grids and extrapolation choices',
        'The tests run one model with constant fractions; weights, axis order and extrapolation are only visible with '
        'redshift-dependent fractions and independent values.',
        [P + 'add.py'],
        [('upsampling and weighting', P + 'add.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; oracle is plain interpolation and weighting of separately built populations.',
    ),
    prop(
        'C12',
        'The non-linear halo bias table is the one derived from the halo emulator',
        'For every cosmology, redshift and mass grid, each entry of the non-linear halo bias table equals the documented '
        'ratio of emulated halo power to linearly biased matter power at that redshift, wavenumber and pair of masses, with '
        'the documented large-scale correction and the documented treatment outside the emulator\'s range. '
        'The table is symmetric in the two masses.',
        ['configurations', 'inputs'],
        'every combination of cosmology, amplitude convention, grids and extrapolation settings in the bounded space',
        'The tests use one configuration of the emulator and check shape and finiteness.',
        [P + 'bnl.py'],
        [('bias table', P + 'bnl.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; the emulator is a deterministic analytic stand-in with the same interface, so '
        'what is decided is the use made of it, not its accuracy.',
    ),
    prop(
        'C13',
        'Each bin, redshift and wavenumber is answered independently of the others',
        'The spectra and galaxy quantities of one observable bin do not depend on which other bins are requested with it or in '
        'which order, and a spectrum at one wavenumber does not depend on the other requested wavenumbers as long as the grid '
        'starts at the same one. The matter spectra and halo-model ingredients at one redshift do not depend on the other requested redshifts.',
        ['inputs', 'configurations'],
        'every subset and order of bins, redshifts and wavenumbers of small grids, in every option branch',
        'The tests use one grid; leaking of a neighbour\'s value needs the same point asked for in two different grids.',
        [P + 'pk.py', P + 'hmi.py', P + 'hod.py'],
        [('array layout (bin, z, k, mass)', P + 'pk.py'), ('per-redshift ingredients', P + 'hmi.py')],
        'exhaustive enumeration of sub-grids and permutations of requested bins, redshifts and wavenumbers on the real objects, compared point by point',
        'All non-empty subsets/permutations of 3 bins, of 4 redshifts and of the tail wavenumbers in the listed configurations. '
        'Galaxy spectra versus redshift are excluded (occupations are interpolated over the redshift grid by design).',
    ),
    prop(
        'C14',
        'Requests the model cannot honour are rejected, never answered',
        'Unknown option values and parameter names, ingredient sets that a recipe does not allow, tables of the wrong shape, '
        'grids a method cannot handle and missing inputs raise an error whether they arrive at construction, by a later update '
        'or through a clone; they are never answered with numbers. Once the request is put right the model answers like a fresh one.',
        ['inputs', 'histories', 'configurations'],
        'every forbidden request of the catalogue, on every route by which it can reach a model, from warm and cold models',
        'The tests try a handful of wrong values at construction only; validation that is skipped on update, or that leaves the '
        'object damaged, is not seen.',
        [P + 'pk.py', P + 'hmi.py', P + 'hod.py', P + 'ia.py', P + 'bnl.py', P + 'add.py'],
        [('parameter validation', P + 'pk.py'), ('consistency checks in the computations', P + 'pk.py')],
        'exhaustive enumeration of (forbidden request, route, prior reads, repair) histories on the real objects',
        'All combinations of the catalogue in checks/c14.py. A request not in the catalogue is not covered.',
    ),
    prop(
        'C16',
        'The CosmoSIS module writes what the library gives for each sampled point',
        'Each execution of the CosmoSIS halo-model module writes, for exactly the requested spectra, what the library gives for '
        'that point\'s cosmology, linear and non-linear inputs, galaxy and alignment parameters and the configured options, '
        'upsampled to the input grid and labelled by sample and bin. It does not depend on the executions before it, except that '
        'the halo bias table is refreshed at the configured interval only.',
        ['histories', 'configurations'],
        'every combination of requested spectra, options and populations and every sequence of sampler points up to the bound',
        'The module cannot be imported by the tests here at all (it needs CosmoSIS), and a sampler makes thousands of '
        'executions with one configuration: state carried from point to point corrupts chains silently.',
        ['cosmosis_modules/onepower_interface.py', P + 'add.py', P + 'pk.py'],
        [('setup()/execute()', 'cosmosis_modules/onepower_interface.py')],
        'exhaustive exploration of option points and of all sampler-point sequences up to depth 3 on the real module over a recording datablock',
        'All 64 subsets of requested spectra, the option lattice of checks/c16.py and all sequences of 3 points. CosmoSIS is '
        'replaced by a stand-in of its datablock and option interface; oracle: direct use of the library (decided by C06-C12).',
    ),
    prop(
        'C17',
        'Alignment amplitudes and the satellite alignment transform are the defined ones',
        'For every choice of dependence, slope, pivot, amplitude, radial slope, multipole order, mass sampling and '
        'luminosity distribution, the central and satellite alignment amplitudes at every redshift and the satellite '
        'alignment transform at every redshift, mass and wavenumber equal the published definitions. '
        'Combinations of options that the definitions exclude are rejected.',
        ['configurations', 'inputs'],
        'every combination of alignment options in the bounded space',
        'The tests use one or two combinations and compare shapes; which average applies in which combination of options is '
        'a large product space.',
        [P + 'ia.py'],
        [('amplitudes and transform', P + 'ia.py')],
        'exhaustive walk of the option lattice on live objects, each state compared with an independent reference model',
        'All points of the finite lattice; oracle vlib/refia.py (loop based).',
    ),
    prop(
        'C18',
        'Projected correlations, cosmology corrections and angles are the defined ones',
        'For every configuration and input table, the CosmoSIS module that projects power spectra writes for every bin, at '
        'exactly the separations it reports, the redshift-kernel-weighted Hankel transform of the (logarithmically '
        'interpolated and extrapolated) spectrum that belongs to the bin: order 0 for wp, order 2 and the mean density for ds. '
        'The cosmology correction rescales every bin by the ratio of the run\'s and the data\'s geometry at that bin\'s '
        'redshift, and the angle module converts between any two units and relabels. Unknown kinds, units and wrong numbers of '
        'redshifts are rejected, and no execution depends on an earlier one.',
        ['configurations', 'inputs', 'histories'],
        'every combination of module options, signs and shapes of the input tables in the bounded space, and every sequence of '
        'executions and conversions up to the depth',
        'No test touches these modules; a mislabelled separation, bin or unit still gives smooth plausible curves.',
        ['cosmosis_modules/pk_to_real/pk_to_real.py', 'cosmosis_modules/pk_to_real/pk_to_real_ogata.py',
         'cosmosis_modules/pk_to_real/correct_cosmo_real.py', 'cosmosis_modules/convert_theta/convert_theta.py'],
        [('projection', 'cosmosis_modules/pk_to_real/pk_to_real.py'), ('correction', 'cosmosis_modules/pk_to_real/correct_cosmo_real.py'),
         ('angles', 'cosmosis_modules/convert_theta/convert_theta.py')],
        'exhaustive exploration of option combinations and execution sequences of the real modules against a reference model',
        'All option combinations, sequences of up to 3 executions on one configured module, conversion paths up to length 3; '
        'CosmoSIS replaced by a stand-in of its datablock; hankel and astropy trusted; one recorded known finding '
        '(correct_cosmo_real scales the common rp once per bin).',
    ),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in ALL:
            f.write(json.dumps(e['p']) + '\n')
    doc = dict(
        version=1,
        setup_cmd='true',
        checks=[e['c'] for e in ALL],
        not_applicable=NOT_APPLICABLE,
        notes='No hooks: the checks drive the unmodified code of /repo/src and /repo/cosmosis_modules.',
    )
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
