#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the wording stays in one reviewable place)."""
import json, os
SUB="emc2/simulator/subcolumn.py"; LID="emc2/simulator/lidar_moments.py"; RAD="emc2/simulator/radar_moments.py"
ATT="emc2/simulator/attenuation.py"; PSD="emc2/simulator/psd.py"; CLS="emc2/simulator/classification.py"
MAIN="emc2/simulator/main.py"; STA="emc2/statistics_LLNL/statistical_aggregation.py"; MOD="emc2/core/model.py"
INS="emc2/core/instrument.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
T1="The tests run one or two idealised columns (0, 0.5 or 1 cloud fraction, 8-10 subcolumns, one time step); "
p("S01","Convective subcolumn allocation matches the convective cloud fraction",
  "With two or more subcolumns, the number of subcolumns marked as holding a convective hydrometeor class in a grid cell is the class's cloud fraction times the number of subcolumns, rounded to the nearest integer (ties to even), and under radiation logic it is zero where that class's convective mixing ratio does not exceed the truncation threshold. The marked subcolumns are always the lowest-numbered ones, contiguous from the first, so that all classes and levels overlap maximally.",
  ["inputs","configurations"],"every fraction field in [0,1], mixing ratio, threshold, number of subcolumns >= 2, times and levels, both logics",
  T1+"the rule is per cell for every fraction and every number of subcolumns.",[SUB],
  [("set_convective_sub_col_frac",SUB)],["convective fraction-in-subcolumns field of each class"])
p("S02","Stratiform cloud subcolumn counts match the cloud fractions",
  "With two or more subcolumns, at every level below the model top the number of subcolumns marked with stratiform cloud liquid (and likewise cloud ice) equals its cloud fraction times the number of subcolumns rounded to the nearest integer (zero under radiation logic where its mixing ratio does not exceed the truncation threshold), capped by the number of subcolumns free of convective cloud at that level. No marked subcolumn holds convective cloud, except that a level where both phases round to full cover is marked in all subcolumns. The model top level is never marked.",
  ["inputs","configurations","schedules"],"every pair of cloud-fraction fields, convective masks, number of subcolumns >= 2, outcome of the random draws, serial/parallel/chunked execution",
  T1+"only a handful of count totals and one draw of the random generator are looked at.",[SUB],
  [("set_stratiform_sub_col_frac / per-column allocator",SUB)],["stratiform cloud fraction-in-subcolumns fields"])
p("S03","Stratiform cloud overlap is maximal within and between layers",
  "With two or more subcolumns, below the model top, in each layer the subcolumns holding the less extensive of stratiform cloud liquid and cloud ice are a subset of those holding the more extensive one. In each layer, each phase shares as many subcolumns as its count allows with the subcolumns that are cloudy (either phase, and free of convection in the layer) directly above it.",
  ["inputs","configurations","schedules"],"every pair of cloud-fraction fields, convective masks, number of subcolumns, outcome of the random draws",
  T1+"overlap depends on the layer above, on both phases and on the random draw; tests never check it for partial cover.",[SUB],
  [("overlap cases of the stratiform allocator",SUB)],["stratiform cloud fraction-in-subcolumns fields of adjacent levels"])
p("S04","Precipitation subcolumn counts are exact and fill the right subcolumns first",
  "With two or more subcolumns, at every level below the model top the number of subcolumns marked with each precipitation class equals its fraction times the number of subcolumns rounded to the nearest integer (zero under radiation logic where its mixing ratio does not exceed the truncation threshold), the classes' subcolumn sets are nested in each other, and the model top level is never marked. Each class takes as many as its count allows of the subcolumns lying under precipitation at the level above. Subcolumns not under precipitation are taken from those holding cloud of the same (convective or stratiform) kind before any hydrometeor-free one is used.",
  ["inputs","configurations","schedules"],"every set of one or more precipitation classes and fraction fields, cloud masks, number of subcolumns, outcome of the random draws, stratiform and convective",
  T1+"with uniform fractions the overlying-first / cloudy-second / clear-last order is never exercised.",[SUB],
  [("set_precip_sub_col_frac / per-column allocator",SUB)],["precipitation fraction-in-subcolumns fields"])
p("S05","Subcolumn mixing ratio and number are the in-cloud means where present",
  "When a class's condensate is spread without sub-grid variability over two or more subcolumns, every subcolumn holding the class in a cell gets the in-cloud mean mixing ratio (grid mean divided by the class's cloud fraction, zero if the grid mean does not exceed the truncation threshold) and every other subcolumn gets exactly zero. Stratiform number concentration follows the same rule without the threshold. Neither output is ever NaN or negative.",
  ["inputs","configurations"],"all non-negative mixing ratios, numbers and fractions in [0,1] (including zero fraction), both logics, all classes, convective and stratiform",
  T1+"zero-fraction and below-threshold cells, and logic/class combinations, are not covered.",[SUB],
  [("set_q_n",SUB)],["q- and n-in-subcolumns fields"])
p("S06","Cloud-liquid sub-grid variability conserves water and stays non-negative",
  "When sub-grid variability of stratiform cloud liquid is on, for every outcome of the random generator the mixing ratios given to the subcolumns holding cloud liquid in a cell are all non-negative and sum to the in-cloud mean times the number of those subcolumns (a single such subcolumn gets exactly the mean). Subcolumns without cloud liquid get zero. The computation always terminates, also where the mean is zero.",
  ["inputs","configurations","schedules"],"all means >= 0, positive inverse relative variances, occupied-subcolumn patterns and random draws",
  "Tests draw one realisation per case with a fixed column; conservation and termination must hold for every draw and every mean, including zero.",[SUB],
  [("set_q_n / per-column distributor",SUB)],["cloud-liquid q-in-subcolumns field"])
p("S07","Serial, parallel and chunked execution cover each time column exactly once",
  "Whatever combination of serial or parallel execution and chunk size is chosen, subcolumn generation, radar and lidar processing put the result for each model time column at that same time index, with no column dropped, duplicated or reordered. All outputs that involve no random draw are therefore identical in all execution modes.",
  ["configurations","schedules","inputs"],"every number of time columns, chunk size >= 1 and parallel setting, for every processing step that accepts them",
  "Tests use one time column, for which every chunking is the same; nothing compares execution modes.",[SUB,RAD,LID],
  [("chunked map loops",SUB),("chunked map loops",RAD),("chunked map loops",LID)],["all time-dimensioned outputs"])
p("L01","Lidar optical depth is the path integral of extinction from the instrument side",
  "The cumulative optical depth of a hydrometeor class in a subcolumn is zero at the level nearest the lidar (lowest level when looking up, highest when looking down) and at each further level increases by the extinction of the previously crossed level times the height difference between the two levels, in metres. It is therefore never negative and never decreases away from the lidar, in either viewing direction.",
  ["inputs","configurations"],"every extinction profile >= 0, strictly increasing height profile, number of levels and both viewing directions, for every class and cloud type",
  "Tests check a uniform profile in one viewing direction at a few levels; the relation must hold level by level for all profiles.",[LID],
  [("accumulate_OD",LID)],["per-class optical depth in subcolumns"])
p("L02","Attenuated backscatter obeys the lidar equation",
  "The attenuated backscatter (per cloud type and total) equals (molecular + particulate backscatter) x two-way molecular transmittance x exp(-2 x multiple-scattering factor x hydrometeor optical depth) in every subcolumn, time and level. Total particulate backscatter, extinction and optical depth are the sums of the convective and stratiform parts (missing parts counting as zero), or the stratiform part alone if convection is not processed. Molecular transmittance and hydrometeor optical depth are accumulated from the same, requested, side.",
  ["inputs","configurations"],"all profiles, multiple-scattering factors, viewing directions, models with and without convection",
  "Tests compare a few numbers for one profile; the law and the direction consistency are never checked together.",[LID,ATT],
  [("calc_total_alpha_beta, calc_lidar_moments",LID),("calc_theory_beta_m",ATT)],["attenuated backscatter fields","total backscatter/extinction/optical depth fields"])
p("L03","Lidar class totals add up and absent hydrometeors contribute nothing",
  "For every cloud type, backscatter, extinction and optical depth from all hydrometeors equal the sums over exactly the selected classes. Each class's backscatter and extinction is non-negative at all levels and exactly zero in every subcolumn cell that does not hold the class. This holds for the radiation, microphysics and empirical approaches and after repeating the calculation.",
  ["inputs","configurations","histories"],"all class selections, approaches, viewing directions, tables with non-negative efficiencies, repeated runs",
  "Tests look at single classes in one cell; sums over arbitrary selections and the sign at every level are not checked.",[LID],
  [("calc_lidar_bulk, calc_lidar_micro, calc_lidar_empirical",LID)],["per-class and total backscatter, extinction and optical depth"])
p("L04","Depolarization ratio is the backscatter-weighted mean of the class values",
  "The linear depolarization ratio (per cloud type, and convective plus stratiform together) is the mean of the per-class ratios in effect (the caller's if given, else the model's) weighted by class backscatter over the selected classes. It is undefined exactly where the total backscatter of those classes is zero, and otherwise lies between the smallest and largest class ratio.",
  ["inputs","configurations"],"all backscatter fields (including missing values), class selections, ratio tables, models with and without convection",
  "Tests check the mean over a mixed column for one set of ratios.",[LID],
  [("calc_LDR_and_ext",LID)],["depolarization ratio fields"])
p("L05","Lidar extinction mask marks exactly the extinct levels and the crossing level",
  "The extinction mask is 2 exactly where the total optical depth exceeds the extinction threshold, 1 exactly in a non-extinct level whose next level away from the lidar is extinct, and 0 elsewhere. This holds looking up and looking down.",
  ["inputs","configurations"],"all optical-depth profiles, thresholds, numbers of levels, both viewing directions",
  "Tests check a couple of levels of one profile.",[LID],
  [("calc_LDR_and_ext",LID)],["extinction mask"])
p("L06","Lidar phase mask agrees with the threshold curves",
  "Each cell of the lidar phase mask holds the index of the last threshold class whose backscatter curve (interpolated in depolarization ratio, logarithmic in backscatter) is reached by the cell's total backscatter, and is clear where there is no backscatter, no curve is reached, or (when removal of undetectable signal is on) the optical depth exceeds the instrument's extinction limit. Cells of the mask take no other values, and clear cells are 0, or missing if that option is chosen.",
  ["inputs","configurations"],"all backscatter/depolarization/optical-depth fields and threshold sets, both options, per cloud type and total",
  "Tests only run the classifier; no output values are checked against the curves.",[CLS],
  [("lidar_classify_phase",CLS)],["lidar phase masks"])
p("L07","Spaceborne-lidar phase labels are consistent with signal and temperature",
  "In the spaceborne-lidar emulation a cell is labelled only if its scattering ratio exceeds the cloud threshold; a labelled cell is undefined if some level nearer to the lidar exceeded the fully-attenuating threshold, otherwise liquid above 273.15 K, ice below 233.15 K, and between those ice exactly when the cross-polarised signal exceeds the discrimination curve. The first level that exceeds the attenuating threshold is itself never undefined. The scattering ratio is the attenuated total backscatter of the selected classes divided by the attenuated molecular backscatter. This holds for each cloud type and for all hydrometeors, in both viewing directions and whatever the output options.",
  ["inputs","configurations"],"all backscatter, optical depth, temperature and transmittance profiles, thresholds, options and viewing directions",
  "Tests only run the routine on one idealised column.",[CLS],
  [("lidar_emulate_cosp_phase",CLS)],["emulated phase masks"])
p("R01","Total reflectivity is the linear sum of its parts",
  "Total reflectivity (stratiform plus convective when convection is processed) is ten times the log10 of the sum of the parts' linear reflectivities, missing parts counting as zero, and is missing exactly where no part is present. The reflectivity of a cloud type is likewise the linear sum over exactly the selected classes. The attenuated total is the same sum times the two-way hydrometeor (both cloud types) and gaseous transmittances, hence never above the unattenuated one.",
  ["inputs","configurations"],"all reflectivity and transmittance fields with missing values anywhere, class selections, models with and without convection, all approaches",
  "Tests compare a handful of cells of one idealised model.",[RAD],
  [("calc_total_reflectivity, calc_radar_moments, calc_radar_bulk, calc_radar_micro, calc_radar_empirical",RAD)],["reflectivity fields"])
p("R02","Radar transmittance integrates all selected hydrometeors and gases",
  "The two-way hydrometeor and gaseous transmittances are 1 at the level nearest the radar and at every further level are multiplied by the two-way transmittance of the previously crossed level (extinction times height difference, with extinction of every selected class counted). They lie in (0,1] and never increase away from the radar, in both viewing directions.",
  ["inputs","configurations"],"all extinction/attenuation profiles >= 0, strictly increasing heights, class selections and orders, both directions, every approach",
  "Tests check the shape of one profile; which classes attenuate is not observed.",[RAD],
  [("accumulate_attenuation, calc_radar_bulk, calc_radar_micro, calc_radar_empirical",RAD)],["hydrometeor and gaseous two-way transmittance"])
p("R03","Doppler velocity and spectral width are reflectivity-weighted moments",
  "In the microphysics approach each class's mean Doppler velocity is the backscatter-weighted mean of the (downward, density-corrected) fall velocity over its size distribution and its spectral width is the corresponding standard deviation. The total velocity and width are the same moments over all selected classes together, independent of the order in which the classes are listed. Velocities stay within the range of the classes' fall velocities and widths are never negative.",
  ["inputs","configurations"],"all size distributions, fall-speed laws, density corrections, class lists and orders",
  "Tests run one model with one class order and check a few finite values.",[RAD],
  [("calc_radar_micro and its column kernels",RAD)],["Doppler velocity and spectral width fields"])
p("R04","Minimum detectable reflectivity and detection mask",
  "The minimum detectable reflectivity rises with 20 log10 of height relative to the reference range and equals the instrument's sensitivity at the reference range. The detection mask flags a cell as undetected exactly where an attenuated total reflectivity is present and does not exceed the minimum detectable value.",
  ["inputs","configurations"],"all heights > 0, reference ranges, sensitivities and reflectivity fields",
  "Tests check one profile with the default reference range.",[ATT,RAD],
  [("calc_radar_Ze_min",ATT),("calc_total_reflectivity",RAD)],["minimum detectable reflectivity, detection mask"])
p("R05","Radar-sounding mask combines cloud occurrence and detectability",
  "A radar-sounding mask cell is mixed (2) when cloud liquid is present and the attenuated reflectivity is detectable, precipitation (3) when only detectable, cloud (1) when only cloud liquid is present, and clear otherwise. Cells outside the optional height range are always clear. Clear is 0, or missing if that option is chosen.",
  ["inputs","configurations"],"all cloud masks, reflectivity fields with missing values, height ranges, options, per cloud type and total",
  "Tests only run the classifier.",[CLS],
  [("radar_classify_phase",CLS)],["radar-sounding masks"])
p("M01","Molecular and gaseous attenuation profiles are physical",
  "For every physical atmosphere the molecular extinction, backscatter, refractive-index excess and number density and the gaseous radar attenuation are positive. Molecular optical depth is zero at the level nearest the instrument, accumulates by the trapezoid rule away from it in the requested direction, and the two-way molecular transmittance is exp(-2 x optical depth), so it lies in (0,1] and never increases away from the instrument.",
  ["inputs","configurations"],"all pressures, temperatures and humidities in the physical range, strictly increasing heights, wavelengths, frequencies, both directions",
  "Tests compare a few numbers of one standard profile looking up.",[ATT],
  [("calc_theory_beta_m, calc_radar_atm_attenuation",ATT)],["molecular scattering fields","gaseous attenuation fields"])
p("M02","Results do not depend on the units in which the atmosphere is supplied",
  "Supplying the model's pressure, temperature or height in any other convertible unit (Pa or hPa, K or degC, m or km) leaves the molecular, gaseous-attenuation and lidar/radar moment outputs unchanged.",
  ["inputs","configurations"],"all atmospheres and all combinations of supported units for pressure, temperature and height",
  "The tests use a single unit combination.",[ATT,LID,RAD],
  [("pint conversions",ATT),("pint conversions",LID),("pint conversions",RAD)],["molecular fields, gaseous attenuation, radar and lidar moments"])
p("P01","Fitted size distributions reproduce the prescribed mass and number",
  "For every class fitted with a gamma or exponential size distribution, in every subcolumn with positive mass and number, integrating the distribution over all diameters gives back the class's number concentration, and integrating spherical-particle mass gives back its mixing ratio (in the model's unit convention, number per volume against mass per mass, without an air-density factor). Slope and intercept are positive and finite there, and missing where there is no mass. The fitted shape parameter respects the dispersion bounds for cloud liquid and is zero for the other classes.",
  ["inputs","configurations"],"all positive mixing ratios and numbers, densities, dispersion settings and bounds, every fitted class, stratiform",
  "Tests check the fit for one profile and one class.",[PSD],
  [("calc_mu_lambda, calc_and_set_psd_params",PSD)],["fitted intercept, slope and shape fields"])
p("C01","Phase ratios are proper liquid fractions",
  "The frequency phase ratio is the number of subcolumns whose mask value is one of the chosen classes divided by the number whose value counts as hydrometeor, and is missing where there is none. The mass phase ratio is liquid mass over liquid plus ice mass, counting only subcolumns where the given mask is positive. With the chosen classes among the hydrometeor classes, both lie in [0,1].",
  ["inputs","configurations"],"all masks, class selections and non-negative mass fields, per subcolumn and summed",
  "Tests check one mask of one idealised column.",[CLS],
  [("calculate_phase_ratio",CLS)],["phase ratio fields"])
p("A01","Vertical regridding is an overlap-weighted mean of the overlapped layers",
  "Each output layer that the source profile overlaps holds the average of the overlapped source layers weighted by the thickness of the overlap (averaged in linear units if that is requested), so it lies between the smallest and largest contributing value and a constant profile stays constant. Output layers at or below the lowest source boundary are flagged as below ground. Every point and subcolumn is regridded independently of the others.",
  ["inputs","configurations"],"all strictly increasing source grids, contiguous increasing output grids (finer, coarser, shifted, extending above the source top), all profiles",
  "No test calls the regridding with a layout in which the weights differ from one.",[STA],
  [("COSP_CHANGE_VERTICAL_GRID",STA)],["regridded profiles"])
p("A02","Lidar cloud fraction is cloudy over usable subcolumns",
  "The lidar cloud fraction of a cell is the number of subcolumns whose scattering ratio exceeds the cloud threshold divided by the number whose ratio exceeds the fully-attenuated threshold, missing ratios counting as neither. It lies in [0,1] and is missing exactly when no subcolumn is usable.",
  ["inputs"],"all scattering-ratio fields including missing values",
  "Tests (if any) run a single dataset and compare totals.",[STA],
  [("calculate_lidar_CF",STA)],["lidar cloud fraction"])
p("A03","Contoured frequency by altitude counts every in-range value once",
  "For each level the frequency diagram gives, for each half-open bin, the number of subcolumn values in the bin divided by the number of subcolumns, averaged over all times (times without in-range values counting as zero). Each value inside the outer edges is counted in exactly one bin, so at every level the bins sum to the fraction of values in range and lie in [0,1].",
  ["inputs","configurations"],"all value fields including missing values, increasing bin edges, numbers of subcolumns, times and levels",
  "No test checks bin edges or normalisation.",[STA],
  [("cal_cfad_radar_40levels, get_cfaddBZ, get_cfad_SR",STA)],["frequency diagrams"])
p("O01","The one-call driver honours every option it accepts",
  "Every option passed to the one-call driver (radiation or microphysics logic, viewing direction, multiple-scattering factor, extinction threshold, reference range, class selection, ice treatment, height mask, zero-to-missing conversion, execution mode) reaches each processing stage that uses it with the value given, and options not given take the documented default (the instrument's own value where there is one). Running the driver gives the same result as calling the documented stages by hand with those options.",
  ["configurations"],"every subset and value of the driver's options, both instrument types, models with and without convection",
  "Tests call the driver with almost no options set.",[MAIN],
  [("make_simulated_data option handling",MAIN)],["every stage's inputs and the driver's outputs"])
p("O02","Results do not depend on what was simulated before on the same model",
  "Repeating a radar or lidar simulation on a model whose subcolumns are already generated gives the same outputs as the first time, and simulating another instrument in between changes nothing in the outputs of the first.",
  ["histories","configurations"],"every sequence of radar/lidar simulations (same or other instrument, approach) on one model object",
  "Tests run each simulation once on a fresh model.",[LID,RAD,MAIN],
  [("accumulators and cached interpolators",LID),("accumulators and cached interpolators",RAD)],["all simulated fields"])
p("O03","Simulating does not alter the model's own input fields",
  "Subcolumn generation, radar and lidar simulation, classification and statistics leave the values, dimensions and units of all of the model's original input fields unchanged, and leave the instrument's sensitivity, thresholds and scattering tables unchanged.",
  ["inputs","configurations","histories"],"every model state, option set and sequence of processing steps",
  "No test compares the inputs before and after.",[SUB,LID,RAD,ATT,CLS],
  [("in-place array handling",SUB),("in-place array handling",RAD)],["model input fields, instrument tables"])
p("D01","Stacking and unstacking regional output is lossless",
  "Stacking time, latitude and longitude of regional output into one processing dimension and unstacking it again returns every field's value at the same time, latitude, longitude and height, with its dimensions' coordinates and attributes unchanged. Fields created while stacked come out at the coordinates of the column they were computed for.",
  ["inputs","configurations"],"every grid size (including sizes of one), with or without longitude, fields with and without height",
  "Tests use one small regional file and compare shapes.",[MOD],
  [("check_and_stack_time_lat_lon, unstack_time_lat_lon, permute_dims_for_processing",MOD)],["dataset fields after the round trip"],
  [("stacked_time_dim","name of the original time dimension while stacked",MOD)])
p("D02","Saved subcolumn output can be loaded back unchanged",
  "Writing a model's subcolumn output to a file and loading it into a model holding the same columns restores every subcolumn mixing ratio, number and occurrence field and every simulated signal, mask, phase-ratio and transmittance field with identical values and dimensions, and leaves the other fields of the model as they were.",
  ["inputs","histories"],"every set of generated fields, with and without convection, masks and phase ratios",
  "Tests do not exercise the save/load pair on a full output.",[MOD],
  [("subcolumns_to_netcdf, load_subcolumns_from_netcdf",MOD)],["fields after loading"])
p("D03","Cropping keeps exactly the requested times and region",
  "Cropping to a time range keeps exactly the time steps at or after its start and strictly before its end, with all their data, in the original order; if none qualifies the data are left whole. Cropping ascending x/y coordinates to bounds keeps exactly the points with coordinates within the bounds, inclusive.",
  ["inputs"],"all time axes and ranges, all coordinate axes and boxes",
  "Tests crop one file to one range.",[MOD],
  [("_crop_time_range, _crop_bounding_box_x_y",MOD)],["cropped dataset"])
p("D04","Scattering tables are loaded in consistent SI units",
  "Loading a single-particle scattering table converts every particle dimension to metres, every cross section and projected area to square metres and every volume to cubic metres (for Mie tables also radius to diameter and steradian normalisation of the backscatter cross section). Wavelength or frequency columns and the values of bulk tables keep the source's units. No other column changes, the row order is kept, and every unit label matches the values.",
  ["inputs","configurations"],"all table contents and formats (Mie, two ice formats, bulk formats; radar and lidar)",
  "Tests only load the shipped tables and compare a few numbers downstream.",["emc2/io/load_mie_file.py","emc2/io/load_scat_file.py","emc2/io/load_bulk_scat_file.py"],
  [("load_mie_file","emc2/io/load_mie_file.py"),("load_scat_file","emc2/io/load_scat_file.py"),("load_bulk_scat_file","emc2/io/load_bulk_scat_file.py")],["loaded tables"])
p("D05","Out-of-range microphysics inputs are clamped to the table range",
  "Clamping a field to a lookup table's range returns the nearest value within the table's minimum and maximum, leaves values already inside unchanged, and keeps missing values missing, so that it is idempotent.",
  ["inputs"],"all fields and tables, including missing values",
  "No test calls it.",[MOD],
  [("set_array_to_valid_range, limit_input_data_to_p3_lut_range",MOD)],["clamped fields"])
p("D06","Finalising and removing subcolumn fields touch only what they should",
  "Finalising the output turns exactly the zero values of simulated subcolumn fields (and of any additionally named fields) into missing values and changes nothing else. Removing a cloud type's subcolumn fields removes exactly that cloud type's subcolumn fields (names containing sub_col or subcol) and its phase masks and keeps every other field.",
  ["inputs","configurations","histories"],"every dataset of generated fields, both cloud types",
  "No test compares fields before and after.",[MOD],
  [("finalize_subcol_fields, remove_subcol_fields",MOD)],["dataset before and after"])
p("G01","Size-of-draw statistics of sub-grid cloud liquid",
  "Over many draws the sub-grid cloud-liquid mixing ratios follow a gamma distribution with the prescribed inverse relative variance.",
  ["inputs"],"the distribution of the random draws","A test sees finitely many draws.",[SUB],
  [("set_q_n",SUB)],["distribution of cloud-liquid q in subcolumns"])
p("G02","Figures show the simulated fields faithfully",
  "Every plotting routine draws the selected field at the right time, height and subcolumn with the requested units and colour limits.",
  ["inputs","configurations"],"all fields and plot options","Image tests cover a few figures.",["emc2/plotting/subcol_display.py"],
  [("SubcolumnDisplay","emc2/plotting/subcol_display.py")],["figures"])
p("G03","Mie calculations are physically correct",
  "The computed single-particle scattering cross sections equal those of Mie theory for the given refractive index and size parameter.",
  ["inputs"],"all wavelengths, refractive indices, diameters","Tests compare a few values.",["emc2/scattering/mie_scattering.py"],
  [("scat_properties_water, scat_properties_ice","emc2/scattering/mie_scattering.py")],["scattering dataset"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
