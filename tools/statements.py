NOTE = 'Generated-input search, seeded and reproducible; shows the property on the cases explored, not beyond them. '

prop('C01', 'Data objects are faithful ordered trees of named values',
     'Whatever sequence of assignments, deletions, merges, appends, deep (dotted) writes, copies and mappings is applied to the attribute-dictionaries every SUAVE object is made of, '
     'attribute access, item access, iteration and listing agree with each other and with an ordered tree that went through the same operations. '
     'Merging overlays branch by branch, appending refuses a name already present, class defaults apply base class first, and two objects never share mutable state by accident.',
     ['histories', 'inputs'], 'every sequence of operations on every tree of values, for both the plain and the ordered container, and every data class in the package',
     'Existing tests build a few fixed vehicles; they never exercise clashing names, deep merges over missing branches or independence of instances in general.',
     ['trunk/SUAVE/Core/Data.py', 'trunk/SUAVE/Core/DataOrdered.py', 'trunk/SUAVE/Core/Arrays.py'],
     [('attribute/item unification', 'Data.__getattribute__/__setattr__'), ('deep merge', 'Data.update'), ('deep addressing', 'Data.deep_set/deep_get'), ('defaults along the class chain', 'Data.__new__')],
     'stateful property-based testing against a nested-dict model', NOTE + 'Trusts the nested-dict model in checks/c01_data_trees.py.')

prop('C02', 'Component containers never lose, duplicate or misfile a component',
     'After any history of appending, extending and removing components, with clashing, mixed-case or punctuated tags, a container holds exactly the components added and not removed, in order, each unaltered and reachable under its own unique name. '
     'A vehicle files every component under the family of its type; containers that rename clashing tags accept every component, and the ordered segment containers either keep a component or refuse it with an error, never overwriting another one.',
     ['histories'], 'every history of additions and removals, every tag text, every component family',
     'Regression vehicles use distinct, well-formed tags, so collisions and renames are never reached.',
     ['trunk/SUAVE/Core/Container.py', 'trunk/SUAVE/Core/ContainerOrdered.py', 'trunk/SUAVE/Vehicle.py', 'trunk/SUAVE/Components/Wings/Main_Wing.py'],
     [('tag clean-up and renaming', 'Container.append'), ('routing by type', 'Vehicle.append_component / find_component_root')],
     'stateful property-based testing against a list model', NOTE)

prop('C03', 'Packing numeric data to an array and unpacking it is lossless',
     'Flattening the numeric content of any data tree gives every number exactly once, in tree order and column-major within a table, and ignores non-numeric entries. '
     'Writing a vector or table of the same size back puts every number where it came from, in place, and leaves structure and non-numeric content untouched, so pack and unpack are inverse.',
     ['inputs'], 'every nested layout of scalars, one- and two-dimensional float arrays and non-numeric entries, and every vector written back',
     'The mission solver packs a handful of fixed layouts; nested or mixed layouts and column order are not settled by a converged example.',
     ['trunk/SUAVE/Core/Data.py', 'trunk/SUAVE/Core/Arrays.py'],
     [('pack', 'Data.pack_array'), ('unpack', 'Data.unpack_array')],
     'property-based round trip and differential test against an independent flattener', NOTE)

prop('C04', 'Configurations inherit base changes and keep their own',
     'After any local edits to configurations and any later edits to the base they were made from, pulling (or finalising) leaves each configuration equal to the new base overlaid with exactly its own edits, at every depth and through chains of configurations. '
     'The base and sibling configurations are never changed by it, and pulling again changes nothing.',
     ['histories', 'configurations'], 'every base tree, every set of local edits, every later base edit, and every number or chain of configurations',
     'Regression cases use one fixed base with two or three hand-written variants and never edit the base afterwards.',
     ['trunk/SUAVE/Core/Diffed_Data.py', 'trunk/SUAVE/Components/Configs/Config.py'],
     [('difference against the base', 'Diffed_Data.store_diff / diff'), ('overlay', 'Diffed_Data.pull_base')],
     'stateful property-based testing against an overlay model', NOTE)

prop('C05', 'Unit conversion is exact, reversible and repeatable',
     'Multiplying any number or array by any unit or unit expression (products, quotients, powers, prefixes, parentheses, attribute or text form) gives its value in SI base units, and dividing by it converts back. '
     'The result depends only on the number and the unit: converting leaves the array converted and the unit object itself as they were, however often and in whatever order they are used, and temperature scales apply their offset.',
     ['inputs', 'histories'], 'every number, array, unit name, prefix and expression, and every sequence of conversions that reuses unit objects',
     'The plug-in tests exercise the underlying quantity library; the multiply-in/divide-out layer SUAVE puts on top is only used at fixed values.',
     ['trunk/SUAVE/Core/Units.py', 'trunk/SUAVE/Plugins/pint/unit.py', 'trunk/SUAVE/Plugins/pint/quantity.py', 'trunk/SUAVE/Plugins/pint/util.py', 'trunk/SUAVE/Plugins/pint/default_en.txt'],
     [('multiply in, divide out', 'Core/Units.__rmul__/__rdiv__'), ('expression parsing', 'pint UnitRegistry.parse_expression'), ('definitions', 'pint/default_en.txt')],
     'property-based testing against a hand-written SI table, with stateful reuse of unit objects', NOTE)

prop('C06', 'Saved data read back as they were',
     'Whatever tree of numbers, text, flags, lists, tuples and arrays is archived, loading the file gives back the same tree: same keys, order, nesting, text and numbers, with arrays of the same shape. '
     'XML, FreeMind and D3 exports are well formed for every text content and hold each element, attribute and value once, in tree order, and XML written and read back describes the same tree. Saving never alters what is saved.',
     ['inputs'], 'every tree of supported values, key and text content, including empty trees, markup characters, and array shapes',
     'Existing tests save one fixed result; text needing escapes, odd shapes and empty branches are never tried.',
     ['trunk/SUAVE/Input_Output/SUAVE/archive.py', 'trunk/SUAVE/Input_Output/SUAVE/load.py', 'trunk/SUAVE/Input_Output/XML', 'trunk/SUAVE/Input_Output/FreeMind', 'trunk/SUAVE/Input_Output/D3JS'],
     [('tree to JSON', 'Input_Output/SUAVE/archive.py: build_dict_r'), ('JSON to tree', 'Input_Output/SUAVE/load.py: read_SUAVE_json_dict'), ('XML elements', 'Input_Output/XML/Data.py, load.py, save.py')],
     'property-based round-trip testing', NOTE)

prop('C07', 'Atmosphere, air and gravity follow the published standard',
     'At every altitude the standard atmosphere gives the pressure, temperature and density of the 1976 standard (clamped outside its range), a temperature deviation shifts temperature alone at fixed pressure, and density, sound speed, viscosity, conductivity and Prandtl number are those of air at that state. '
     'Pressure falls with altitude in hydrostatic balance across layer boundaries; the value at one altitude does not depend on what else is evaluated, in what order or shape; gravity falls with the square of distance from the Earth centre.',
     ['inputs'], 'every altitude, temperature deviation, batch, order and array shape',
     'Tests compare a table of altitudes; batches spanning layers, exact boundaries, deviations and evaluation order are not covered.',
     ['trunk/SUAVE/Analyses/Atmospheric/US_Standard_1976.py', 'trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py', 'trunk/SUAVE/Attributes/Gases/Air.py', 'trunk/SUAVE/Attributes/Planets/Earth.py', 'trunk/SUAVE/Attributes/Atmospheres/Earth'],
     [('layer selection and integration', 'US_Standard_1976.compute_values'), ('air properties', 'Attributes/Gases/Air.py'), ('gravity', 'Attributes/Planets/Earth.compute_gravity')],
     'property-based testing against an independent reference implementation', NOTE)

prop('C08', 'Shared numerical building blocks are exact',
     'For every number of points the Chebyshev and uniform grids run from 0 to 1 and their matrices differentiate and integrate polynomials (lines, for the uniform grid) exactly, integration starting at zero and undoing differentiation. '
     'The cubic blend goes monotonically from one to zero between its limits in either direction; the soft maximum is the log-sum-exp without overflow; table interpolation is bilinear with its fill value outside; a Latin hypercube puts exactly one sample in every slice of every dimension within its bounds.',
     ['inputs'], 'every grid size, polynomial, interval, table, argument size and sample count',
     'Tests use one or two grid sizes inside a mission; exactness, edge values, reversed limits and overflow are not settled by them.',
     ['trunk/SUAVE/Methods/Utilities', 'trunk/SUAVE/Core/Utilities.py', 'trunk/SUAVE/Methods/Missions/Segments/Common/Numerics.py'],
     [('spectral operators', 'Methods/Utilities/Chebyshev/chebyshev_data.py'), ('blending', 'Methods/Utilities/Cubic_Spline_Blender.py'), ('sampling', 'Methods/Utilities/latin_hypercube_sampling.py')],
     'property-based testing against exact calculus and scalar definitions', NOTE)

prop('C09', 'Each mission segment flies the profile it is named after',
     'For all parameters, discretisations, courses and non-standard days, each segment holds the true, calibrated or equivalent airspeed, Mach number or dynamic pressure, the climb rate or angle, and the altitudes it is given, at every control point. '
     'Freestream conditions are the atmosphere at that altitude; elapsed time, distance, ground track, latitude and longitude are the integrals of the velocity; distances, durations and end altitudes asked for are reached.',
     ['inputs'], 'every segment type, parameter set, number of control points, course, starting latitude and temperature deviation',
     'Regression missions fly each segment once with standard air, due north, and compare with stored numbers that would include any error present when they were stored.',
     ['trunk/SUAVE/Methods/Missions/Segments', 'trunk/SUAVE/Analyses/Mission/Segments'],
     [('profiles', 'Methods/Missions/Segments/*/*.py: initialize_conditions'), ('integration in time', 'Methods/Missions/Segments/Common/Frames.py'), ('freestream', 'Methods/Missions/Segments/Common/Aerodynamics.py')],
     'property-based testing against kinematic definitions on an independent atmosphere', NOTE + 'Flown by a stand-in aeroplane (lib/plane.py).')

prop('C10', 'A converged segment obeys the equations of motion and burns its fuel',
     'Whenever a segment reports convergence, at every control point the sum of lift, drag, thrust, weight (and ground reaction and friction) equals mass times the acceleration of the flown profile, for any polar, thrust line, mass, fuel flow and day. '
     'Converged or not, mass is the initial mass less the time integral of the total fuel flow, weight is mass times local gravity, and the lift coefficient never exceeds its maximum either way.',
     ['inputs'], 'every segment type and parameter set, every aeroplane polar, thrust inclination, lapse, mass and fuel flow',
     'Stored regression numbers show a few missions unchanged; they do not show that forces balance or that mass follows from fuel flow.',
     ['trunk/SUAVE/Methods/Missions/Segments', 'trunk/SUAVE/Methods/Missions/Segments/converge_root.py'],
     [('residuals', 'Methods/Missions/Segments/*/Common.py: residual_total_forces, solve_residuals'), ('frames and forces', 'Methods/Missions/Segments/Common/Frames.py: update_orientations, update_forces'), ('mass', 'Methods/Missions/Segments/Common/Weights.py')],
     'property-based testing against a closed-form aeroplane and Newton\'s law', NOTE + 'Wings level; spurious roots of the discrete ground and fixed-throttle equations (negative speed or time) are discarded.')

prop('C11', 'A mission is one continuous flight',
     'In any sequence of segments each one starts exactly at the time, mass, range, ground position, latitude and longitude where the one before ended, and at its altitude and speed when none is given; nothing a later segment does changes an earlier one. '
     'A segment gives the same flight alone from the same mass as inside a mission, evaluating a mission again gives the same flight, and solving a whole mission for a landing weight gives that weight and the flight its segments give one by one.',
     ['histories'], 'every sequence of segments with given or inherited altitudes, any start position, any number of control points',
     'Tests run a few fixed missions to the end once; continuity at each joint, isolation of earlier segments and repeatability are not asserted.',
     ['trunk/SUAVE/Methods/Missions/Segments/Common', 'trunk/SUAVE/Analyses/Mission', 'trunk/SUAVE/Methods/Missions/Segments/Cruise/Variable_Cruise_Distance.py'],
     [('linking segments', 'Methods/Missions/Segments/Common/Sub_Segments.py'), ('initial conditions', 'Methods/Missions/Segments/Common/Frames.py, Weights.py: initialize_*'), ('whole-mission solution', 'Analyses/Mission/Variable_Range_Cruise/Given_Weight.py')],
     'property-based testing of segment sequences with metamorphic relations', NOTE + 'Flown by a stand-in aeroplane; missions that do not converge are discarded.')

prop('C12', 'Attitudes and frames are proper rotations, and forces act along the right axes',
     'For any roll, pitch and yaw the body, wind and inertial frames are related by proper rotations in the aerospace order, inverses undo them and lengths are kept. '
     'For any attitude and velocity, banked and sideslipping flight included, angle of attack and sideslip are those of the velocity seen from the body, drag opposes the velocity, lift is normal to it in the plane of symmetry, thrust turns with the body, '
     'and the total force is the sum of the parts. Turning attitude and flight path to a new heading turns the forces and nothing else.',
     ['inputs'], 'every attitude, every flight direction, every order of rotation',
     'Regression missions fly wings-level without sideslip; no test evaluates a rotation about more than one axis.',
     ['trunk/SUAVE/Methods/Geometry/Three_Dimensional/angles_to_dcms.py', 'trunk/SUAVE/Methods/Geometry/Three_Dimensional/orientation_product.py', 'trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py'],
     [('rotation matrices', 'Three_Dimensional/angles_to_dcms.py'), ('aerodynamic angles and wind frame', 'Frames.update_orientations'), ('sum of forces', 'Frames.update_forces')],
     'property-based testing against an independent rotation library and geometric relations', NOTE)

prop('C13', 'Planform geometry is the geometry of the surfaces and bodies described',
     'Chords, spans, areas, sweeps, mean chords, thickness, aerodynamic centres and lengths of trapezoidal and sectioned surfaces are those of the polygon their description spans, whether given once or with extra sections, at any scale, and evaluating again changes nothing. '
     'A control surface laid over several sections is cut into pieces that cover exactly its extent and carry its settings; chord and span locations, sweeps at other chord lines, tail volumes and fuel, fuselage and nacelle sizes follow their definitions; '
     'stored non-dimensional positions scale back with the vehicle.',
     ['inputs'], 'every planform, symmetric or one-sided, horizontal or vertical, any number of sections and control surfaces',
     'Regression vehicles fix a dozen planforms and compare end results; geometry is hardly asserted, and control surfaces always start and end on the same section.',
     ['trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform', 'trunk/SUAVE/Methods/Geometry/Three_Dimensional', 'trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions'],
     [('trapezoid', 'Planform/wing_planform.py'), ('sectioned wings', 'Planform/wing_segmented_planform.py'), ('control surfaces', 'Planform/populate_control_sections.py'), ('sweep conversion', 'Supporting_Functions/convert_sweep.py')],
     'property-based testing against numerical integration of the described polygon', NOTE + 'Five recorded defects are accepted only where the wrong value is exactly the recorded one.')

prop('C14', 'Airfoil sections and polars survive generation, import, blending and extension',
     'A section generated from its four digits lies on the analytic section, at any resolution. Coordinate files in every accepted layout, with any header, give the section they list, the same whichever layout it was written in, with the right thickness and camber; '
     'polar files give the coefficients, Reynolds and Mach numbers they list; blended sections are the stated mixtures; extended polars keep the measured points and have the drag and vanishing lift of a plate at a right angle.',
     ['inputs'], 'every section, file layout, header text, number format and resolution',
     'Tests read a handful of shipped files whose headers start with letters.',
     ['trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil'],
     [('four-digit sections', 'compute_naca_4series.py'), ('format detection and resampling', 'import_airfoil_geometry.py'), ('polars', 'import_airfoil_polars.py, compute_airfoil_properties.py')],
     'property-based testing with write-and-read round trips against an analytic section', NOTE)

prop('C15', 'Drag is the sum of its parts, each in step with size, speed and flow',
     'The total drag of a vehicle is the sum of its breakdown, and every part is the coefficient its formula gives for that component alone, referred to the vehicle area: skin friction on the wetted area with its form factor, compressibility, induced, pylon, trim, miscellaneous, wave and engine-out drag. '
     'Friction follows the flat-plate laws through transition, continuously in Mach and Reynolds number through Mach 1; parts scale with area and vanish with their component; '
     'the value at one flight condition does not depend on which others are evaluated with it, in what order, or on both sides of Mach 1.',
     ['inputs'], 'every mixture of wings, bodies and nacelles, every speed from rest to supersonic, every batch of conditions',
     'Regression cases compare total drag of a few vehicles at a few conditions, all on the same side of Mach 1.',
     ['trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag', 'trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Drag', 'trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag', 'trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions'],
     [('parasite drag', 'parasite_drag_wing.py, parasite_drag_fuselage.py, parasite_drag_nacelle.py, parasite_drag_pylon.py'), ('flat plates', 'Helper_Functions/compressible_*_flat_plate.py'), ('wave drag and blending', 'Supersonic_Zero/Drag/compressibility_drag_total.py, Cubic_Spline_Blender.py')],
     'property-based testing against independent scalar formulas and metamorphic relations', NOTE + 'One recorded defect is accepted only where the wrong value is exactly the recorded one.')

prop('C16', 'Lifting line, stalled sections and maximum lift follow the theory they state',
     'The lifting line gives the circulation series of its wing: lift linear in incidence and twist, induced drag never below the elliptic minimum, vertical surfaces unloaded, and its analysis gives the sum over wings, each with its own values, through the surrogate as without it. '
     'Sections stay attached, continuous and within the published stall model through all incidences; maximum lift with flaps and slats rises with deflection, extent and chord as the correlations do.',
     ['inputs'], 'every wing, twist, taper and crank, every station count, incidence from -90 to 90 degrees, every flap and slat setting',
     'One regression wing without twist is compared to stored lift; drag, twist and several wings are never checked.',
     ['trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py', 'trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py', 'trunk/SUAVE/Methods/Aerodynamics/AERODAS', 'trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Lift'],
     [('Glauert series', 'Lifting_Line.py'), ('stall model', 'AERODAS/pre_stall_coefficients.py, post_stall_coefficients.py'), ('high lift', 'compute_max_lift_coeff.py, compute_flap_lift.py, compute_slat_lift.py')],
     'property-based testing against an independent series solution and published correlations', NOTE + 'Three recorded defects are accepted only where the wrong value is exactly the recorded one.')

prop('C17', 'The vortex lattice solves the flow it states on the geometry it was given',
     'Panels cover each surface exactly, with strips ending at every break and control surfaces covering exactly their extent. The circulation leaves no flow through the panels, lift and moment are those of that circulation, drag is not below what the wake carries, and the loads of the wings add up. '
     'Results are linear in the onset flow, mirror with the flow, follow the Prandtl-Glauert rule, and do not depend on speed, size, position, precision, reference area, the order of the wings or the other conditions in the batch. '
     'Deflected surfaces move alone and load the expected way; the surrogate reproduces its training points and is continuous through Mach 1.',
     ['inputs'], 'every arrangement of cranked, swept, twisted wings, tails and control surfaces, every panel count, flow angle, rotation rate and Mach number',
     'Regression cases compare a few fixed vehicles with stored coefficients, so whatever the lattice did when they were stored passes.',
     ['trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift', 'trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py'],
     [('panelling', 'generate_vortex_distribution.py, make_VLM_wings.py, deflect_control_surface.py'), ('influence and onset flow', 'compute_wing_induced_velocity.py, compute_RHS_matrix.py'), ('forces', 'VLM.py'), ('surrogate', 'Analyses/Aerodynamics/Vortex_Lattice.py')],
     'property-based testing against independent horseshoe vortices and metamorphic relations', NOTE + 'Tolerances cover the small-angle panel normals of the method; two recorded defects are probed exactly.')

prop('C18', 'Air-breathing and rocket engines conserve mass, momentum and energy',
     'Compressible-flow relations agree with the conservation laws on both sides of Mach one and at every point of a batch; every component of an engine satisfies its own balance; the thrust, fuel flow, power and core flow of turbofans, turbojets with and without reheat, ramjets, scramjets, rockets and ducted fans are those of the cycle computed from first principles at every flight condition and throttle. '
     'An engine sized for a thrust delivers it at its design point, scales with the design thrust and number of engines, is independent of the other points of the batch and of earlier evaluations, and networks add up, whatever fuels they burn.',
     ['inputs', 'histories'], 'every engine, component efficiency, pressure ratio, throttle and flight condition, in any batch',
     'Regression cases evaluate one or two fixed engines at one altitude and compare stored thrust.',
     ['trunk/SUAVE/Components/Energy/Converters', 'trunk/SUAVE/Components/Energy/Networks', 'trunk/SUAVE/Components/Energy/Processes', 'trunk/SUAVE/Methods/Propulsion'],
     [('gas relations', 'fm_id.py, fm_solver.py, rayleigh.py, nozzle_calculations.py, shock_train.py'), ('cycle elements', 'Compressor.py, Turbine.py, Combustor.py, *_Nozzle.py'), ('thrust and sizing', 'Processes/Thrust.py, Rocket_Thrust.py, *_sizing.py'), ('networks', 'Turbofan.py, Turbojet_Super.py, Ramjet.py, Scramjet.py, Liquid_Rocket.py, Ducted_Fan.py, Network.py')],
     'property-based testing against an independent cycle computation and conservation laws', NOTE + 'One recorded defect is probed exactly.')

prop('C19', 'Batteries conserve charge and energy',
     'Over any load profile the energy in a pack falls by exactly the energy drawn plus the losses, charge and state of charge follow the current, voltages and heat are those of the cell chemistry, and pack and cell quantities differ by exactly the cells in series and parallel. '
     'Packs of different size under the same load per cell behave the same, a segment flown in two parts ends where it ends in one, the demand of the caller is untouched, charging never loses energy, ageing only gets worse with time and use, and sizing gives the mass, energy and power asked for.',
     ['inputs', 'histories'], 'every chemistry, pack layout, load profile, ageing and cooling state and segment length',
     'Regression cases discharge three packs at one current and compare stored voltages.',
     ['trunk/SUAVE/Components/Energy/Storages/Batteries', 'trunk/SUAVE/Methods/Power/Battery'],
     [('energy and charge', 'Lithium_Ion.py, Lithium_Ion_LiNiMnCoO2_18650.py'), ('cell model', 'Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py'), ('heat', 'compute_net_generated_battery_heat.py'), ('sizing', 'Methods/Power/Battery/Sizing, Ragone'), ('reporting', 'pack_battery_conditions.py')],
     'property-based testing against energy and charge balances and a reference cell model', NOTE)

prop('C20', 'Motors, controllers, engines, fuel cells and solar panels balance power',
     'The speed a motor finds carries its torque balance, its current and efficiency are those of that speed, geared or not; a sized motor delivers the power it was sized for. Controllers, gearboxes, generators and peripherals pass on the power they receive less their losses. '
     'Piston engine power follows its altitude law and throttle, and asking for that power gives that throttle back. A fuel cell meets its power on the stable side of its peak. The sun stands where astronomy puts it for the time and place, panels make what falls on them, and the solar logic leaves the battery what the rest does not take.',
     ['inputs'], 'every motor, load, throttle, altitude, place and time',
     'Regression cases run one motor, one engine and one place and date.',
     ['trunk/SUAVE/Components/Energy/Converters', 'trunk/SUAVE/Components/Energy/Distributors', 'trunk/SUAVE/Components/Energy/Processes/Solar_Radiation.py', 'trunk/SUAVE/Methods/Propulsion', 'trunk/SUAVE/Methods/Power/Fuel_Cell'],
     [('motor', 'Motor.py, Motor_Lo_Fid.py, electric_motor_sizing.py'), ('piston engine', 'Internal_Combustion_Engine.py'), ('fuel cell', 'larminie.py'), ('sun and panel', 'Solar_Radiation.py, Solar_Panel.py, Solar_Logic.py')],
     'property-based testing against power balances and independent formulas', NOTE + 'Two recorded defects of the solar model are probed exactly.')

prop('C21', 'Rotors satisfy blade element and vortex theory in every frame',
     'At every blade section the circulation of the lift balances the vortex wake with tip and hub loss, section data follow the incidence and local flow, and thrust, torque, power and their coefficients are the integrals of the section loads. '
     'Results depend on the advance ratio, tip Mach and Reynolds number only, scale with density and size as theory says, do not depend on the other points of the batch, on the direction of rotation, or on how the aircraft and rotor are turned; resolving the azimuth in axial flow changes nothing and in edgewise flow gives the periodic loads of the local velocity. A propeller designed for a thrust or power delivers it at its design point.',
     ['inputs'], 'every blade shape, operating point, orientation and cross flow inside the unstalled range',
     'Regression cases spin a few fixed propellers in axial flow.',
     ['trunk/SUAVE/Components/Energy/Converters/Rotor.py', 'trunk/SUAVE/Methods/Propulsion', 'trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py'],
     [('sections and loads', 'Rotor.py (spin), BET_calculations.py'), ('wake', 'Methods/Propulsion/Rotor_Wake/Fidelity_Zero'), ('frames', 'Rotor.py (vec_to_vel, prop_vel_to_body)'), ('design', 'propeller_design.py')],
     'property-based testing against an independent blade element solution and metamorphic relations', NOTE + 'Operating points where a section settles beyond its stall are excluded: the balance has several solutions there.')

prop('C22', 'Energy networks add up what their parts make and draw',
     'The thrust, power and current of an electric, hybrid lift and cruise, solar, piston or ducted fan network are the sums over all of its propulsors, each turned by its own motor or engine at its own throttle, counting identical ones as often as they are fitted and inactive ones not at all. '
     'The battery or fuel supplies exactly that shaft power divided by the losses of motors and controllers plus avionics and payload; the residuals vanish exactly when rotor and motor torque and assumed and actual voltage agree. Reported conditions of every propulsor stand in its own column, evaluating twice gives the same, and charging draws nothing but the charging current.',
     ['inputs', 'histories'], 'every mix of rotors, motors, engines, throttles, numbers of propulsors and flight states',
     'Regression cases fly a few missions with identical propellers and compare stored values.',
     ['trunk/SUAVE/Components/Energy/Networks', 'trunk/SUAVE/Components/Energy/Distributors', 'trunk/SUAVE/Components/Energy/Peripherals', 'trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py'],
     [('electric networks', 'Battery_Propeller.py, Lift_Cruise.py, Solar.py'), ('piston networks', 'Internal_Combustion_Propeller.py, Internal_Combustion_Propeller_Constant_Speed.py'), ('fans', 'Battery_Ducted_Fan.py, Ducted_Fan.py')],
     'property-based testing: the network against its parts evaluated one by one, and conservation laws', NOTE)

prop('C23', 'Weight estimates follow their published correlations and add up',
     'Empty, payload and operating weights of transport (SUAVE, FLOPS, Raymer), blended wing body, general aviation, human powered, solar and eVTOL aircraft equal the published correlations evaluated on the geometry, masses and systems of the vehicle; every total is the sum of its parts, each component mass stored on the vehicle is the one reported, and weight-reduction factors act on the group they name. '
     'A second evaluation gives the same weights, heavier requirements never make a lighter structure, and nothing is not-a-number.',
     ['inputs'], 'every vehicle: wings (segmented or not), tails, fuselages, engines, systems, passengers and load factors',
     'Regression cases weigh five aircraft and compare stored numbers; a wrong exponent or a part left out of a total shows only for other geometries.',
     ['trunk/SUAVE/Methods/Weights', 'trunk/SUAVE/Analyses/Weights'],
     [('correlations', 'Methods/Weights/Correlations'), ('build-ups', 'Methods/Weights/Buildups'), ('analyses', 'Analyses/Weights')],
     'property-based testing: independent scalar re-statement of each correlation, sums and metamorphic relations', NOTE)

prop('C24', 'Centre of gravity and inertia are those of the placed masses',
     'The vehicle centre of gravity is the mass-weighted mean of all components, each at its origin plus its own centre of gravity, with every network, wing, fuselage, system, landing gear and fuel tank counted once; moments of inertia obey the parallel axis theorem, scale with mass and length squared, do not change with the order of components, and the tensor is symmetric. '
     'During a mission the centre of gravity moves along the fuel burned between its zero-fuel and full positions.',
     ['inputs'], 'every arrangement of component masses and places and every fuel state',
     'Regression cases balance two aircraft.',
     ['trunk/SUAVE/Methods/Center_of_Gravity', 'trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability', 'trunk/SUAVE/Components/Mass_Properties.py', 'trunk/SUAVE/Components/Physical_Component.py'],
     [('component balance', 'compute_component_centers_of_gravity.py, compute_vehicle_center_of_gravity.py'), ('fuel', 'compute_fuel_center_of_gravity_longitudinal_range.py, compute_mission_center_of_gravity.py')],
     'property-based testing: first-moment bookkeeping by an independent model, permutation and translation relations', NOTE)

prop('C25', 'Stability derivatives, neutral point and flight modes are consistent',
     'Static derivatives equal the published approximations of the same geometry; the static margin is minus the moment slope over the lift slope about the mission centre of gravity at every control point, moving the centre of gravity aft by one chord reduces it by one, and tail volume adds stability. '
     'Frequency, damping and time constants of every dynamic mode are those of the eigenvalues of the linearised equations of motion in their stated units, for every flight condition separately.',
     ['inputs'], 'every conventional geometry, mass distribution, flight condition and set of derivatives',
     'Regression cases evaluate two aircraft.',
     ['trunk/SUAVE/Methods/Flight_Dynamics', 'trunk/SUAVE/Analyses/Stability'],
     [('static', 'Static_Stability/Approximations'), ('dynamic', 'Dynamic_Stability'), ('analysis', 'Analyses/Stability/Fidelity_Zero.py')],
     'property-based testing: independent formulas, eigenvalues of an independently assembled state matrix, metamorphic shifts of the centre of gravity', NOTE)

prop('C26', 'Noise levels add as energy and follow their sources',
     'Sound levels combine as sums of energy, A-weighting, perceived noise, tone correction and effective levels follow their standards over all bands and the 10 dB-down window, and every microphone and control point is heard on its own: its level does not depend on which others are evaluated with it. '
     'Harmonic rotor noise follows the Hanson integrals of the blade loads, several rotors add up, microphones stand where the grid says, and airframe noise follows the Fink correlation for the geometry of the configuration.',
     ['inputs', 'histories'], 'every spectrum, fly-over history, microphone grid, rotor, blade load, place and flight condition',
     'Regression cases compare stored levels of three fly-overs.',
     ['trunk/SUAVE/Methods/Noise', 'trunk/SUAVE/Analyses/Noise'],
     [('levels', 'Methods/Noise/Fidelity_One/Noise_Tools'), ('rotors', 'Methods/Noise/Fidelity_One/Propeller'), ('airframe', 'Methods/Noise/Fidelity_One/Airframe'), ('analysis', 'Analyses/Noise/Fidelity_One.py')],
     'property-based testing: scalar reference of the standards and correlations, energy sums, one-at-a-time against batch', NOTE)

prop('C27', 'Performance and cost estimates follow their definitions',
     'V-n diagrams meet the FAR 23/25 stall, manoeuvre and gust requirements of the main wing and contain every load they report; field lengths follow the correlations at the pressure altitude and temperature of the airport and are inverted exactly by the weight-for-field search; payload-range corners respect maximum take-off, zero-fuel, payload and fuel masses and lie at the range actually flown on that fuel; best speeds, climb maps and single propeller points equal their closed forms. '
     'Cost totals equal the sum of their breakdown, follow the published cost relations, and are paid exactly once over the years of development. No estimate changes the vehicle or an earlier result.',
     ['inputs', 'histories'], 'every vehicle, airport, weather, mission, production run and year',
     'Regression cases compare stored values for single aircraft at sea level.',
     ['trunk/SUAVE/Methods/Performance', 'trunk/SUAVE/Methods/Costs', 'trunk/SUAVE/Analyses/Costs'],
     [('envelopes', 'Methods/Performance/V_n_diagram.py'), ('fields', 'estimate_take_off_field_length.py, estimate_landing_field_length.py, find_take_off_weight_given_tofl.py'), ('range', 'payload_range.py, electric_payload_range.py'), ('costs', 'Methods/Costs/Correlations/Industrial_Costs')],
     'property-based testing: closed-form vehicles and scalar re-statements of the requirements, inverse and conservation relations', NOTE)

prop('C28', 'Optimisation problems evaluate, scale and constrain what they state',
     'A Nexus sets every field an input alias names (single path, list or stars) to scaled value times scale times unit, clipped to its bounds when hard bounds are asked for, and touches nothing else; objective, constraint values, inequality margins and equality residuals are those of the current design and fidelity level in the stated units and scales, and a margin is non-negative exactly when the constraint holds whatever scale or unit it is written in. '
     'The procedure runs once per new design or fidelity, again when forced, and never for an unchanged one; finite differences are the differences of those values. SciPy solvers, particle swarm and the multi-fidelity trust region return a design inside its bounds that satisfies every constraint and is the best found; line and carpet sweeps tabulate pointwise evaluations and history files read back as written.',
     ['inputs', 'histories'], 'every table of inputs, aliases, units, scales and constraints, every sequence of evaluations, and convex problems of known optimum',
     'Regression cases optimise two analytic problems with unit scales and one design.',
     ['trunk/SUAVE/Optimization/Nexus.py', 'trunk/SUAVE/Optimization'],
     [('problem', 'Nexus.py, helper_functions.py'), ('solvers', 'Package_Setups/scipy_setup.py, particle_swarm_optimization.py, TRMM'), ('sweeps and files', 'line_plot.py, carpet_plot.py, write_optimization_outputs.py, read_optimization_outputs.py')],
     'stateful property-based testing against a closed-form model; solvers against enumerated optima', NOTE + 'Solvers needing packages that are not installed (pyOpt, pyoptsparse, IPOPT) are not driven.')

prop('C29', 'Airfoil panel flow is potential flow and its layers obey their integrals',
     'The panel method gives the velocity on the surface of any closed section such that no flow crosses it and both sides leave the trailing edge alike (Kutta), for each angle of attack and Reynolds number of a table on its own; the flow does not know the axes, size or side up of the section and superposes with the onset flow; lift, drag and moment are the integrals of its pressures, lift is that of its circulation and ideal drag vanishes. '
     'Laminar layers follow the Thwaites and turbulent layers the Head integral equations with their closure and friction laws for the given edge velocity.',
     ['inputs'], 'every thickness, camber, number of panels, table of angles, edge velocity distribution and Reynolds number',
     'Regression cases analyse two airfoils at a few angles.',
     ['trunk/SUAVE/Methods/Aerodynamics/Airfoil_Panel_Method'],
     [('panels', 'hess_smith.py, infl_coeff.py, velocity_distribution.py, panel_geometry.py'), ('forces', 'aero_coeff.py'), ('layers', 'thwaites_method.py, heads_method.py')],
     'property-based testing: an independent complex-potential panel solution, invariances, independent quadrature of the layer equations', NOTE + 'Integrated thicknesses of separating layers amplify round-off and are not compared.')
