"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
TECH = 'symbolic execution of the real Python source (path exploration with z3) + SMT decision of the obligation'
D_NOTE = ('bounded: paths per option variant, 2 nodes per vector, option variants listed in DESIGN.md; every scalar input is '
          'symbolic over its physical range; each identity is normalised to a polynomial identity over the reals and '
          'discharged by z3, counterexamples are replayed on the real component')
D_WHY = ('quantifies over all input values, option sets and evaluation histories; the tests compare against complex step at '
         'a handful of default points, with default options, and never re-evaluate one instance along a different branch')


def deriv(pid, area, files, mech):
    return dict(
        id=pid, title=f'Reported sensitivities are exact: {area}',
        statement=f'For every option set and every input at which a calculation of the {area} area is differentiable, each '
                  'sensitivity the calculation reports equals the derivative of the value it computes, and a pair of '
                  'quantities without a reported sensitivity is truly independent. Values and sensitivities depend only on '
                  'the current inputs and options, never on what the same object evaluated before, and no admissible input '
                  'makes the sensitivity evaluation fail when the value itself can be computed.',
        quantifier={'over': ['inputs', 'configurations', 'histories'],
                    'text': 'all real inputs in the physical range of each quantity, all option variants, all two-step '
                            'evaluation histories of one instance'},
        why_tests_cant=D_WHY,
        anchors={'files': files, 'mechanism': [{'name': 'compute/compute_partials pairs', 'where': mech}],
                 'observe_at': ['component outputs', 'component Jacobian entries']},
        module='derivs', technique='symbolic execution of compute and compute_partials; z3 on normalised identities',
        level_note=D_NOTE)


PROPS = [
    deriv('C01', 'geometry', ['aviary/subsystems/geometry'], 'aviary/subsystems/geometry/**'),
    deriv('C02', 'FLOPS-based mass', ['aviary/subsystems/mass/flops_based'], 'aviary/subsystems/mass/flops_based/**'),
    deriv('C03', 'GASP-based and simple mass', ['aviary/subsystems/mass/gasp_based', 'aviary/subsystems/mass/simple_mass'],
          'aviary/subsystems/mass/gasp_based/**'),
    deriv('C04', 'aerodynamics', ['aviary/subsystems/aerodynamics'], 'aviary/subsystems/aerodynamics/**'),
    deriv('C05', 'propulsion, atmosphere and energy',
          ['aviary/subsystems/propulsion', 'aviary/subsystems/atmosphere', 'aviary/subsystems/energy'],
          'aviary/subsystems/propulsion/**, aviary/subsystems/atmosphere/**, aviary/subsystems/energy/**'),
    deriv('C06', 'mission and equations of motion', ['aviary/mission', 'aviary/utils', 'aviary/core'],
          'aviary/mission/**/ode/*.py, aviary/mission/**/phases/*.py'),
]

S_NOTE = ('bounded: paths and sizes as stated in the evidence; the real code runs on symbolic values and every claim is a z3 query '
          'over all values of the box on that path; counterexamples are replayed on the real code')


def scn(pid, title, statement, over, text, why, files, mech, mods, bounds=None, **kw):
    return dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': mech, 'observe_at': kw.pop('observe', ['component outputs'])},
                module='scenarios', scn=mods, bounds=bounds,
                technique='scenarios over the real code executed symbolically; z3 decides each claim', level_note=S_NOTE, **kw)


PROPS += [
    scn('C08', 'Mass roll-ups count every item exactly once',
        'Structure, propulsion, systems, empty, operating and zero-fuel mass equal the sums of the items they stand for, each '
        'item counted exactly once and per-engine items once per installed engine, for both mass methods and the alternate '
        'equations. Subtotals (payload, fuel capacity, landing gear, controls, wing, pods, engines) equal the sums of their parts.',
        ['inputs', 'configurations'], 'all item masses, margins and scalers; engine-type layouts up to three types',
        'the tests check the totals for two or three reference aircraft in which many items are zero or scaled by one',
        ['aviary/subsystems/mass/flops_based/mass_summation.py', 'aviary/subsystems/mass/gasp_based/mass_summation.py'],
        [{'name': 'summation groups', 'where': 'aviary/subsystems/mass/*/mass_summation.py'}], ['mass']),
    scn('C12', 'Engine scaling, throttle allocation and propulsion totals',
        'Scaling an engine multiplies every scaled performance quantity by the scale factor and the fuel flow by the documented '
        'speed- and size-dependent factor at each point on its own; a factor of one reproduces the engine data. Throttle shares of '
        'all engine types add up to the commanded throttle, every engine type receives its own throttle and parameters, and '
        'aircraft totals equal the sum over types of number installed times single-engine values.',
        ['inputs', 'configurations'], 'all scalers, throttles, Mach numbers and engine outputs; up to three engine types and three nodes',
        'tests run one or two decks at fixed scale factors; Mach numbers either side of one, mixed engine sets and unequal engine '
        'counts are sampled once',
        ['aviary/subsystems/propulsion/engine_scaling.py', 'aviary/subsystems/propulsion/throttle_allocation.py',
         'aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/propulsion/propulsion_premission.py'],
        [{'name': 'scaling, allocation, sums', 'where': 'aviary/subsystems/propulsion/*.py'}], ['prop']),
    scn('C09', 'Airspeed, Mach number and dynamic pressure agree',
        'Whichever of true airspeed, equivalent airspeed or Mach number is given, the three reported speeds and the dynamic '
        'pressure satisfy their definitions at the local density and speed of sound, and converting to another speed and back '
        'returns the speed given. Derived accelerations follow the chain rule through the climb and the local gradient.',
        ['inputs', 'configurations'], 'all speeds, densities, sound speeds, gradients and flight path angles; three speed kinds',
        'tests check each conversion at two hand-picked points and never convert back',
        ['aviary/subsystems/atmosphere/flight_conditions.py',
         'aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py'],
        [{'name': 'flight conditions', 'where': 'aviary/subsystems/atmosphere/flight_conditions.py'}], ['air']),
    scn('C11', 'Atmosphere is physically consistent at every altitude',
        'At every altitude and in every atmosphere model, sound speed and viscosity follow from the local temperature, a '
        'temperature offset shifts the temperature by exactly that amount and the density by the gas law at unchanged pressure, '
        'geometric altitudes give the values of the equivalent geopotential altitude, and no property jumps between table rows. '
        'On the standard day the gas law holds within 0.15 percent and pressure and density fall strictly with altitude.',
        ['inputs', 'configurations'], 'all altitudes of each table, every row',
        'tests compare a handful of table altitudes with stored numbers; the interior of the rows and the seams are not covered',
        ['aviary/subsystems/atmosphere/atmosphere.py', 'aviary/subsystems/atmosphere/utils/get_atmosphere_data.py'],
        [{'name': 'table interpolation', 'where': 'aviary/subsystems/atmosphere/atmosphere.py'}], ['air']),
    scn('C10', "Equations of motion obey Newton's law and the energy balance",
        'For every state and every force, each equation-of-motion model returns accelerations, turn rates and kinematic rates of '
        'one point mass: forces along and across the path match mass times acceleration, speed is the sum of its components, '
        'and the rate of energy change equals the power of thrust, drag and friction. Ground friction acts only through a '
        'non-negative normal force on the runway, and all the formulations give the same motion for the same forces.',
        ['inputs', 'configurations'], 'all masses, forces, speeds, angles and friction coefficients; ground, rotation and flight modes',
        'tests compare two nodes at default values with stored numbers; sign errors that vanish near trim are invisible to them',
        ['aviary/mission/two_dof/ode', 'aviary/mission/solved_two_dof/ode', 'aviary/mission/energy_state/ode', 'aviary/mission/ode'],
        [{'name': 'equations of motion', 'where': 'aviary/mission/**/ode/*eom*.py'}], ['eom']),
    scn('C07', 'A trajectory calculation at a point depends on that point alone',
        'Every calculation that is evaluated at all points of a trajectory at once returns, at each point, exactly what it returns '
        'when that point is evaluated alone with the same trajectory-independent inputs. The number of points and the values at the '
        'other points change nothing, whatever mixture of flight regimes the points are in.',
        ['inputs', 'configurations', 'schedules'], 'all inputs at two points in any mixture of branches, every option variant of every such component',
        'tests repeat one set of values over all nodes or compare stored vectors; two points in different regimes of one branch are not covered',
        ['aviary/mission', 'aviary/subsystems/aerodynamics', 'aviary/subsystems/propulsion', 'aviary/subsystems/atmosphere'],
        [{'name': 'vectorised compute methods', 'where': 'all components with a number-of-nodes option'}], ['nodes']),
    scn('C16', 'Smooth stand-ins follow the functions they replace',
        'The smooth step lies between 0 and 1, is one half at its centre, symmetric and monotone for either sign and any size of the width; '
        'smooth minimum and maximum stay within ln(2)/sharpness of the true ones on the safe side, for arguments of any magnitude; the smooth '
        'integer functions stay within one unit of the truncated value. Each reports its own exact slope, and scalars and arrays agree.',
        ['inputs', 'configurations'], 'all arguments up to 1e3 or 1e4 in size; widths and sharpness values as used by the repository and beyond',
        'there are no unit tests for these functions; components exercise them near their switching points only',
        ['aviary/utils/math.py'],
        [{'name': 'smoothing functions', 'where': 'aviary/utils/math.py'}], ['math'], observe=['function results']),
    scn('C24', 'Smoothing changes nothing away from the switching points',
        'With the option that smooths switches turned on, every calculation that offers it returns the values of the unsmoothed formula '
        'wherever no switching quantity lies within the transition width of its threshold. The switch sits at the same place and '
        'selects the same branch in both forms.',
        ['inputs', 'configurations'], 'all inputs more than 40 widths from a threshold; every component with a smoothing option, its other options varied',
        'tests run the two forms at separate default points, so a blend that selects the wrong branch passes',
        ['aviary/subsystems/mass/gasp_based', 'aviary/subsystems/geometry/gasp_based/wing.py',
         'aviary/subsystems/propulsion/propeller/propeller_performance.py'],
        [{'name': 'smoothed branches', 'where': 'components with a smoothing option'}], ['smooth']),
    scn('C18', 'Taxi, takeoff, cruise and landing summaries follow from the motion',
        'Each closed-form segment agrees with the motion it summarises: fuel and mass balance, cruise distance equals mean speed times '
        'elapsed time at every step and does not change when the cruise is flown in two legs, stall and reference speeds are those at which '
        'the stated lift carries the weight, and total distances are the sums of their parts. More thrust, wing area, lift or air density '
        'never lengthens a takeoff or landing, and more mass never shortens one.',
        ['inputs', 'histories', 'configurations'], 'all speeds, masses, flows, energies and aerodynamic values of a box; up to 4 (6) cruise points, every split of the cruise',
        'tests compare the outputs with stored numbers for constant speed, where wrong accumulation is invisible',
        ['aviary/mission/two_dof/ode/breguet_cruise_eom.py', 'aviary/mission/two_dof/ode/landing_eom.py', 'aviary/mission/two_dof/ode/simple_cruise_eom.py',
         'aviary/mission/energy_state/phases/simplified_takeoff.py', 'aviary/mission/energy_state/phases/simplified_landing.py'],
        [{'name': 'closed-form segments', 'where': 'aviary/mission/**'}], ['segments']),
    scn('C13', 'Crew, passenger, cargo and fuel-tank options come out consistent',
        'Whatever combination of counts a user gives, after preparation the seat classes add up to the passenger total for the mission and the '
        'design, class counts win over a contradictory total with a warning, a lone total becomes economy class, cargo never exceeds the maximum '
        'unless the input is refused, and tank capacities fit the total. Crew numbers obey the seat rules, never fall when passengers are added, and '
        'values the user gave are kept. Preparing twice gives the same result as once.',
        ['inputs', 'configurations'], 'all passenger counts up to 1000 and masses up to 1e5 lbm for every pattern of given and missing values listed in the scenarios',
        'tests try a handful of combinations; the defects sit in combinations of missing and contradictory values',
        ['aviary/utils/preprocessors.py'], [{'name': 'crew and payload preprocessing', 'where': 'aviary/utils/preprocessors.py'}], ['payload']),
    scn('C14', 'Engine options of several engine types are lined up and counted consistently',
        'After preparation every engine variable has one entry per engine type in the order of the types, taken from the type itself, else from the '
        'aircraft, else from the default, with its units preserved. For each type the wing-mounted and fuselage-mounted engines add up to its engines, '
        'no stated engine is lost, and the aircraft totals are the sums over types. Preparing twice gives the same result as once.',
        ['inputs', 'configurations'], 'one to three engine types, zero to four engines per mount, all values of the variables, every pattern of own, shared and missing values',
        'tests use one or two fixed engine sets',
        ['aviary/utils/preprocessors.py', 'aviary/subsystems/propulsion/engine_model.py'],
        [{'name': 'propulsion preprocessing', 'where': 'aviary/utils/preprocessors.py'}], ['prep']),
    scn('C15', 'Stored options keep their value under unit changes, copies and updates',
        'A value stored in one unit reads back as the same physical quantity in every compatible unit, in every container the store accepts, and '
        'reading never changes what is stored. Any sequence of setting, deleting, copying, updating and clearing leaves a collection, and every copy made '
        'of it, with exactly the values last given to it; incompatible or missing units are refused. Options arrive in components as the same physical quantity.',
        ['inputs', 'histories'], 'all real values up to 1e6, sixteen dimensions with their units, all operation histories of the stated length over two collections',
        'tests convert a few numbers and copy once; aliasing and truncation appear only for particular histories and containers',
        ['aviary/utils/named_values.py', 'aviary/utils/aviary_values.py', 'aviary/utils/utils.py', 'aviary/utils/aviary_options_dict.py',
         'aviary/variable_info/functions.py'],
        [{'name': 'option store', 'where': 'aviary/utils/**'}], ['options']),
    scn('C17', 'An engine deck keeps the performance it was given',
        'Every point of an engine table appears once in the deck, with the values given for it in any unit and under any accepted name, whatever the order or '
        'shape of the table; throttles are mapped onto 0 to 1 by one increasing linear map, and net thrust follows from its parts. Scaled thrust is the scale factor '
        'times the reference thrust; generated flight-idle points obey the stated fractions and change no other point; contradictory or incomplete tables are refused.',
        ['inputs', 'configurations'], 'all values of thrust, fuel flow, power, throttle settings, fractions and scaling inputs in stated ranges; four table shapes with up to 22 points, three row orders',
        'tests load a few shipped decks; unusual table shapes, idle bounds and agreeing gross and net columns are never loaded',
        ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/engine_model.py'],
        [{'name': 'engine deck', 'where': 'aviary/subsystems/propulsion/engine_deck.py'}], ['deck']),
    scn('C20', 'Engine types may be listed in any order',
        'Listing the engine types in another order reorders every per-type result in the same way and leaves every aircraft-level result '
        'of mass, geometry and propulsion unchanged. Each type gets the results of its own data, and no result depends on which type comes '
        'first.',
        ['inputs', 'configurations'], 'all engine data of two and three types, every mixture of engine counts and mountings listed, all options',
        'tests use one engine type or one fixed list, so an entry read from the wrong type goes unnoticed',
        ['aviary/subsystems/mass', 'aviary/subsystems/geometry', 'aviary/subsystems/propulsion'],
        [{'name': 'per-engine-type arrays', 'where': 'components with engine-count options'}], ['types']),
    scn('C19', 'A scaler multiplies its own item and changes nothing else',
        'Every scaler a user may set on a mass or wetted area multiplies exactly the quantity it names: the scaled value is the unscaled value '
        'times the scaler for every value of the scaler including zero, for every option and every engine type on its own. Quantities that a '
        'scaler does not name keep their value when it changes, also where one item is computed from another.',
        ['inputs', 'configurations'], 'all inputs of every calculation that has a scaler, scalers from 0 to 20',
        'tests set the scalers to one or to one calibrated value and compare one stored number',
        ['aviary/subsystems/mass', 'aviary/subsystems/geometry'],
        [{'name': 'scaler inputs', 'where': 'aviary/subsystems/{mass,geometry}/**'}], ['scalers']),
    scn('C23', 'Fuel, mass, time and range bookkeeping around the mission',
        'After a mission the reported fuel burned, reserve fuel, total reserve, block fuel, left-over fuel, tank excess, final mass, time and range '
        'follow from the flown histories and the reserve options, whatever phases the main and the reserve mission consist of (one, several or '
        'none). The fuel balance, range, start mass and per-phase distance or duration targets are held to them, in whatever unit the user gave '
        'them. Values that a subsystem hands from before the mission or from a phase to a later part arrive at every place it names.',
        ['inputs', 'configurations'], 'three equations of motion, 1 to 3 main and 0 to 3 reserve phases of 3 nodes; histories, masses and options free',
        'tests fly one stored mission and compare one stored fuel burn, and none flies a single reserve phase',
        ['aviary/core', 'aviary/subsystems/energy', 'aviary/mission'],
        [{'name': 'post-mission group', 'where': 'aviary/core/aviary_group.py, aviary/subsystems/energy/fuel_summation.py'}], ['mission'],
        assume=['the flown phases are stand-ins that offer free histories at every node; everything around them is the real, set-up group']),
    scn('C21', 'Phase options reach the trajectory problem with their meaning intact',
        'The start and end values, bounds, scalings, time limits, flight restrictions, own constraints and guesses a user gives for a mission phase '
        'reach the trajectory problem as the same physical quantities, in whatever unit they were given, and apply to exactly the variables they '
        'name; what is not given is left free. No combination of options, zero values included, leaves a scaling of zero that makes the problem unusable.',
        ['inputs', 'configurations'], 'every numeric option symbolic over its box; every builder and configurator; which options are given enumerated',
        'tests build one or two stored phase descriptions in the declared units with nonzero values',
        ['aviary/mission/phase_builder.py', 'aviary/mission/flight_phase_builder.py', 'aviary/mission'],
        [{'name': 'phase builders and problem configurators', 'where': 'aviary/mission/**/*phase*.py, aviary/mission/*configurator.py'}], ['phases'],
        assume=['the dymos phase is a recorder: what is judged is what the real builders and configurators tell it'], observe=['calls to the trajectory library']),
    scn('C22', 'Adjacent flight phases are joined',
        'Whatever two adjacent phases of a mission both carry along (mass, distance, time, altitude, speed) has the same value at the end of the '
        'first and the start of the second: it is joined exactly once, directly or by a condition as the user chose, from its end to its start, '
        'unless both sides hold it. A condition never has a scaling of zero, a value the user holds is never overridden by a direct connection, and '
        'the reserve mission is joined within itself only.',
        ['configurations', 'inputs'], '19 pairs of phase kinds, 7 ways of joining, up to 3 main and 2 reserve phases; held values and scalings symbolic',
        'tests fly a handful of stored missions, none with a held value of zero or two cruises in a row',
        ['aviary/core/aviary_group.py', 'aviary/mission'],
        [{'name': 'AviaryGroup.link_phases', 'where': 'aviary/core/aviary_group.py'}], ['link'],
        assume=['the trajectory library is a recorder: what is judged is which links the real code asks it for'], observe=['calls to the trajectory library']),
    scn('C27', 'What is optimised, varied and held is what was asked for',
        'The quantity the optimizer minimises is the one the user asked for, singly or as a weighted mean over results and missions, in its documented '
        'form and sense, from the end of the main mission and for any unit of the histories; without a request the kind of problem decides, and a request '
        'that cannot be understood is refused. Which masses are free and which conditions close the problem follow from its kind, and design variables a '
        'subsystem asks for keep their bounds and scale.',
        ['inputs', 'configurations'], 'five objectives, 13 composite forms, all kinds of problem; histories, results, weights, bounds and scalings symbolic',
        'tests optimise a stored mission for one objective; hybrid objective, most composite forms and fleet weights are not run by any',
        ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py'],
        [{'name': 'objectives and design variables', 'where': 'aviary/core/aviary_problem.py, aviary/core/aviary_group.py'}], ['goal'],
        assume=['the flown missions are stand-ins that offer free results and histories; what is added to them is real']),
    scn('C25', 'Further missions fly the sized aircraft with the load asked for',
        'A further mission of a sized aircraft uses its sized gross mass, engines, subsystems and variables, and exactly the passengers, cargo, range or '
        'gross mass asked for, the sizing values otherwise; it changes neither the aircraft nor the mission description it started from. The '
        'payload-range points follow from the masses of the aircraft: full tanks with the payload that then fits, and a ferry flight with no payload and all '
        'the fuel it can lift; a failed mission gives no diagram.',
        ['inputs', 'configurations'], 'both mass methods and off-design kinds, every way of giving the load; masses, ranges and limits symbolic',
        'tests fly one stored aircraft with one load and need optimizers that are often missing; none has tanks larger than the aircraft can lift',
        ['aviary/core/aviary_problem.py'],
        [{'name': 'off-design and payload-range missions', 'where': 'aviary/core/aviary_problem.py'}], ['again'],
        assume=['the further problem is a recorder: what is judged is what the real code asks it to load, vary and fly']),
    scn('C26', 'A sized aircraft saved to a file is the aircraft read back',
        'Saving the results of a run and reading them gives every input value back in its unit, whatever its type (numbers, lists, choices, file names, '
        'texts), with the design and the mission gross mass as they were found, and without changing the values of the run; a saved aircraft is set up '
        'again with its own variables, mission and gross mass.',
        ['inputs'], 'all named alternatives of all options enumerated; numbers symbolic; single values, lists, empty lists and arrays',
        'tests save one stored aircraft, with one choice per option and no lists of choices',
        ['aviary/core/aviary_problem.py', 'aviary/utils/aviary_values.py'],
        [{'name': 'save_results and reload_aviary_problem', 'where': 'aviary/core/aviary_problem.py'}], ['again'],
        assume=['the text form returns a number as the same number']),
    scn('C28', 'Options given for a subsystem in a phase reach that subsystem, and only it',
        'Every call that builds or describes a subsystem, engine or turboprop component for a phase is given the options the user stated for it in that '
        'phase, under its own name and with the values stated; they win over defaults of the phase, none meant for another subsystem or phase is seen, '
        'and the entries of the user are left as they are.',
        ['inputs', 'configurations'], 'equations of all kinds of phase in three orders of subsystems, all subsets that have options; option values symbolic',
        'tests use one subsystem with options at a time, whose values are not looked at',
        ['aviary/mission/base_ode.py', 'aviary/mission/two_dof/ode/takeoff_ode.py', 'aviary/mission/phase_builder.py',
         'aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/propulsion/turboprop_model.py'],
        [{'name': 'subsystem options', 'where': 'aviary/mission, aviary/subsystems/propulsion'}], ['hooks'],
        assume=['subsystems, engines and components are stand-ins that keep what they are given']),
    scn('C29', 'What subsystems, engines and components declare reaches the mission',
        'States, controls, limits, parameters, links, transferred results, design variables, guesses, masses, reported histories and prepared inputs that '
        'an engine, a turboprop component or an external subsystem declares are all present, with their values, in what the propulsion, the turboprop and '
        'the phase pass on, however many declare some.',
        ['inputs', 'configurations'], 'one to three engines, every subset of components, one to three subsystems in each kind of phase; declared values symbolic',
        'most of these calls have no test (noted in the code), others are run with at most one engine that declares anything',
        ['aviary/subsystems/propulsion/propulsion_builder.py', 'aviary/subsystems/propulsion/turboprop_model.py', 'aviary/mission/phase_builder.py'],
        [{'name': 'hooks of subsystem builders', 'where': 'aviary/subsystems/subsystem_builder.py'}], ['hooks'],
        assume=['subsystems, engines and components are stand-ins that declare what they are told to']),
    scn('C30', 'What the user gives is used, also where the program would compute it',
        'Every value the user gives for an aircraft or mission quantity reaches every calculation that uses it, as the same physical quantity, also where '
        'the geometry, mass or aerodynamic analysis computes that quantity itself: the computed value then stands aside, visible and unused. What is not '
        'given is computed once and used everywhere, or has its documented default; a quantity computed by an external subsystem replaces the built-in one.',
        ['inputs', 'configurations'], 'eleven aircraft with all their values symbolic in other units, and given values for all the quantities computed before the mission, in parts',
        'tests give single values for two or three quantities; which quantity a user overrides, and in which unit, is open',
        ['aviary/variable_info/functions.py', 'aviary/core/aviary_group.py', 'aviary/core/static_group.py', 'aviary/subsystems/premission.py'],
        [{'name': 'override_aviary_vars and input defaults', 'where': 'aviary/variable_info/functions.py, aviary/core/aviary_group.py'}], ['given'],
        observe=['values received by the components of the set-up model']),
]

NOT_APPLICABLE = []
