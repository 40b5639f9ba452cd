"""What is checked: the properties, the code that carries each of them, and the rules applied."""

NC = 'navigine::navigation_core::'
H = ['histories', 'inputs', 'configurations']


def P(id, title, statement, over, qtext, why, files, mech, fns=(), rules=(), level='other', note='', tech=''):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                fns=fns, rules=rules, level=level, note=note, tech=tech)


# An obligation is (group, regular expression on the qualified function name without the project
# namespaces [, component filter]).  The filter selects result components of the value graph by name
# ('ret', 'this.<field>...', 'p0', 'completes').
C, TL, CF, PD, PE, TR = 'core', 'tools', 'complementary_filter', 'pedometer', 'position_estimation', 'trilateration'

TESTS = 'The two tests run a handful of recorded tracks or fixed assertions; '

PROPS = [
    P('P01', 'No result depends on a value that was never set',
      'Every configuration value, estimate, output field and internal state that the library, its data readers or the standalone algorithms read has a defined value from the moment its owner is created, even before the first message of that kind arrives. No decision or output ever depends on indeterminate memory.',
      ['inputs', 'histories', 'configurations'], 'every construction path and every first use, for every order of first arrivals of the different message kinds',
      TESTS + 'they start from one initial state and indeterminate memory usually happens to be zero there.',
      ['include/navigine/navigation-core', 'src', 'tools/verification', 'standalone_algorithms'],
      [('default values of settings, inputs, outputs and internal state', 'in-class initialisers and constructor initialisers of every record'), ('local variables', 'declarations in every function body')],
      rules=['definit'], tech='definite-initialisation analysis over every record constructor and every local on the value graph'),
    P('P02', 'Navigation is a deterministic function of map, settings and history',
      'Feeding the same messages, in the same batches, to a newly created client built from the same map and settings always yields the same outputs and states. Results depend on nothing else: not on wall-clock time, randomness, environment, addresses, hash order, or on other clients, filters or estimators living in the same process.',
      ['histories', 'schedules', 'configurations'], 'every message history, every interleaving of several clients in a process, every platform hash order',
      TESTS + 'each runs one client once per process, so cross-talk and time dependence cannot show.',
      ['src', 'include/navigine/navigation-core', 'standalone_algorithms'],
      [('no hidden inputs', 'call sites in everything reachable from navigation and the standalone algorithms'), ('no shared mutable state', 'globals and function-local statics'), ('no unordered iteration', 'range loops and begin() on hash containers')],
      rules=['determinism'], tech='effect analysis: deny-listed sources, mutable globals and statics, hash-order iteration'),
    P('P03', 'Navigation never modifies the map, the settings or its input messages',
      'A level collector and the levels, geometries, radio maps, graphs and transmitters in it are read-only while navigating: no client changes them, so several clients may share one map. Input batches and settings objects handed to the library are left as they were.',
      ['histories', 'schedules', 'configurations'], 'every navigation history with any number of clients sharing one map',
      TESTS + 'they never share a map between clients or re-read it after navigating.',
      ['include/navigine/navigation-core/level.h', 'include/navigine/navigation-core/level_collector.h', 'src'],
      [('constness', 'const qualification of accessors and parameters'), ('no escape hatches', 'const_cast, mutable, non-const calls on map objects')],
      rules=['immutability'], tech='const-effect analysis over type-checked call sites and writes'),
    P('P04', 'One result and one state per accepted message, in order; late ones ignored',
      'For each call the client returns exactly one output, and records exactly one debug state, per message that is not older than the messages before it in the batch, in the order given. A message whose timestamp is smaller than its predecessor’s produces no output and changes nothing, and an empty batch returns nothing and keeps the recorded states.',
      ['histories', 'inputs'], 'every batch of messages with arbitrary timestamps',
      TESTS + 'they feed ordered single-message batches.',
      ['src/navigation_client_impl.cpp'], [('batch loop', 'NavigationClientImpl::navigate'), ('recorded states', 'NavigationClientImpl::getStates')],
      fns=[(C, r'NavigationClientImpl::getStates', ), (C, r'createNavigationClient')], rules=['batch'],
      tech='value-graph comparison of symbolic zero-, one- and two-message batches (relational, no reference)'),
    P('P05', 'Output status and fields agree with the position that produced them',
      'An output reports success exactly when a position is available, and otherwise an error status; on success its level, latitude, longitude, uncertainty, provider and (if enabled) altitude all come from that same position, with coordinates converted by the binding point of that position’s level. Without a level and an outdoor fix, the previous position is kept; on no signal or no motion for the configured times the indoor estimate is dropped.',
      H, 'every message history and every configuration',
      TESTS + 'they compare positions only on a few tracks where all the values change together.',
      ['src/navigation_client_impl.cpp', 'include/navigine/navigation-core/navigation_output.h'], [('output filling', 'NavigationClientImpl::navigate'), ('debug state', 'NavigationState')],
      fns=[(C, r'NavigationClientImpl::navigate'), (C, r'NavigationState::'), (TL, r'NavigationState::'), (C, r'LevelId::(isValid|operator==|operator!=|operator<)'), (C, r'Position::Position')], rules=['output']),
    P('P06', 'A processed indoor position always lies inside the level’s map box',
      'Whatever the estimators, smoothing, graph projection or stop detection produce, the position published for a level is clamped into that level’s bounding box and then rounded down to whole centimetres, so it never lies outside the box by more than that rounding. This holds for both coordinates, at every call.',
      H, 'every fused position, level geometry and configuration',
      TESTS + 'tracks stay well inside the map.',
      ['src/position_postprocessor/position_postprocessor.cpp', 'src/level_geometry.cpp'], [('clamp and rounding', 'PositionPostprocessor::getProcessedPosition'), ('map box', 'LevelGeometry::boundingBox')],
      fns=[(C, r'PositionPostprocessor::getProcessedPosition', r'(ret|this\.mLastOutPosition)\.[xy]$'), (C, r'LevelGeometry::(LevelGeometry|boundingBox)'), (C, r'PositionPostprocessor::isInsideMap'), (C, r'getWidthHeightPair')]),
    P('P07', 'Every reported heading is normalised to one turn and normalisation terminates',
      'Any finite angle is mapped to the equivalent angle within half a turn of zero, differing from it by a whole number of turns, and the mapping always terminates. Every orientation reported by navigation, and every azimuth of the orientation filters that is documented as normalised, has passed through it.',
      ['inputs', 'histories'], 'every finite angle, every sensor history',
      TESTS + 'azimuth values of the tracks stay within one turn.',
      ['src/sensor_fusion/complementary_filter.cpp', 'src/navigation_client_impl.cpp', 'standalone_algorithms/complementary_filter/src/complementary_filter.cpp'],
      [('normalisation', 'to_minus_Pi_Pi in both copies'), ('uses', 'output filling and the azimuth computations')],
      fns=[(C, r'to_minus_Pi_Pi'), (CF, r'to_minus_Pi_Pi'), (C, r'ComplementaryFilter::(calculateMagneticAzimuth|get\w+Azimuth|getGyroHeading)'), (CF, r'ComplementaryFilter::(caclulateMagneticAzimuth|get\w+Azimuth)')], rules=['angle']),
    P('P08', 'Missing or unusual data never leads to an out-of-range access',
      'For any batch, map and settings (no signals, unknown transmitters, empty radio map, single reference point, duplicates, no sensors yet, zero-sized windows), every element, map entry or optional value is read only after it is known to exist. Data that is absent makes an estimator answer with an empty result or keep its previous one.',
      H, 'every batch, map and configuration, including empty and degenerate ones',
      TESTS + 'their maps and tracks always contain enough of everything.',
      ['src', 'tools/verification', 'standalone_algorithms'], [('guards of element accesses', 'every front/back/pop/at/index/iterator/optional access of the library')],
      rules=['access'], tech='guard-implication analysis of every partial operation on the value graph'),
    P('P10', 'Only valid, supported, registered signals are accepted, whatever their kind',
      'A radio signal is used only if its strength is inside the configured valid range, its technology is enabled by the settings, and its transmitter is known on the map; accepted signals enter with their own identifier, strength, distance and message time. Sensor and satellite messages update only their own latest values, the current time always follows the newest message, and the last-signal time moves only when a usable signal arrived.',
      H, 'every message of every kind and every combination of signal switches',
      TESTS + 'they use one set of switches and never inspect rejected signals.',
      ['src/measurements/measurement_preprocessor.cpp'], [('acceptance', 'MeasurementsPreprocessor'), ('switches', 'checkUseBle / checkUseWifi')],
      fns=[(C, r'MeasurementsPreprocessor::\w+(\(\))?|MeasurementsPreprocessor::operator'), (C, r'checkUse(Ble|Wifi)'), (C, r'LevelCollector::findLevelByTransmitterId'), (C, r'TransmitterId::'), (C, r'HasherTransmitterId')]),
    P('P11', 'Signals are averaged over the configured window, nearest ones kept',
      'Signals are handed to the estimators only when the configured interval since the last hand-out has passed: one per transmitter, with the averages of all kept readings of that transmitter (strength with the configured bias, distance), limited to the configured number of strongest ones if so configured. At each hand-out readings older than the keep period are then forgotten (all of them for a zero period), except while standing still with stop detection enabled; distances follow from the transmitter’s path-loss model, or from the ranging offset.',
      H, 'every arrival pattern of readings and every window configuration',
      TESTS + 'they cannot enumerate arrival patterns around the window edges.',
      ['src/measurements/measurement_preprocessor.cpp'], [('window', 'RadioMeasurementBuffer')],
      fns=[(C, r'RadioMeasurementBuffer::'), (C, r'createRadioMeasurementBuffer'), (C, r'MeasurementsPreprocessor::extractRadioMeasurements'), (C, r'PathlossModel::'), (TL, r'PathlossModel::')]),
    P('P12', 'Satellite fixes are used only when fresh, precise and consistent',
      'A satellite fix is published only if it is accurate enough for the configured maximum, lies inside a level’s map (unless use outside is configured), is seen with enough satellites, and is consistent with the recent track by the configured deviation filter; while no new fix arrives, the last accepted one is repeated only for the configured validity time, and otherwise the outdoor answer is empty. A published one carries local coordinates of its level’s reference point, its own accuracy (never below the configured minimum), time and the satellite provider mark; an indoor solution restarts the filter.',
      H, 'every sequence of fixes with any accuracy, satellite count and gap',
      TESTS + 'no test contains satellite data.',
      ['src/position_estimator/position_estimator_outdoor.cpp'], [('acceptance', 'PositionEstimatorOutdoor::calculatePosition'), ('deviation filter', 'SigmaFilter')],
      fns=[(C, r'PositionEstimatorOutdoor::'), (C, r'SigmaFilter::'), (C, r'GpsPosition::'), (C, r'getBinding'), (C, r'gpsToLocal'), (C, r'Position::Position')]),
    P('P13', 'Indoor and outdoor positions are fused by age and confidence, symmetrically',
      'The fused position is the only available one, or the fresher when the other is too old, or, when both are fresh and compatible, their mean weighted by the other’s uncertainty (grown with age at the configured speed); otherwise the more certain one. Preference switches are honoured in the documented order, and stored estimates follow the newest non-empty input of each kind.',
      H, 'every sequence of indoor and outdoor estimates and every switch combination',
      TESTS + 'no test has satellite data, so fusion never runs.',
      ['src/position_postprocessor/position_postprocessor.cpp'], [('fusion', 'PositionPostprocessor::fusePositions'), ('stored estimates', 'PositionPostprocessor::fillIndoorOutdoorPositionStates')],
      fns=[(C, r'PositionPostprocessor::(fusePositions|fillIndoorOutdoorPositionStates|PositionPostprocessor|getIndoorPosition|getOutdoorPosition)'), (C, r'GetDist')]),
    P('P14', 'Stale, outside or stopped positions are dropped, held or updated as configured',
      'Post-processing answers empty when there is no position, when it is outside the map (unless allowed) or older than the dead-reckoning limit; while the user stands still with stop detection on, the published point moves only at the configured interval and distance. Smoothing and graph projection apply only when enabled, and projection moves the point only when the graph is within the configured distance.',
      H, 'every history of positions and steps and every combination of switches',
      TESTS + 'they run one switch combination.',
      ['src/position_postprocessor/position_postprocessor.cpp'], [('conditions', 'PositionPostprocessor::getProcessedPosition'), ('projection', 'getProjection')],
      fns=[(C, r'PositionPostprocessor::(getProcessedPosition|isInsideMap|PositionPostprocessor)'), (C, r'^getProjection'), (C, r'GetProjection'), (C, r'GetDist'), (C, r'Graph<XYPoint>::(getVertex|edges\w+|vertex\w+)')]),
    P('P15', 'The alpha-beta smoother filters positions per level and restarts on jumps',
      'With the smoothing filter selected, each published coordinate is the standard alpha-beta update of the previous estimate with the configured strength: prediction plus a fraction of the innovation, speed corrected by the time step, at bounded speed and time step. Level changes, resets and long gaps restart it at the measured position with zero speed.',
      H, 'every sequence of positions and time steps',
      TESTS + 'recorded tracks have regular time steps and no jumps.',
      ['src/position_postprocessor/position_smoother_ab.cpp'], [('filter', 'PositionSmootherAB::smoothPosition'), ('restart', 'PositionSmootherAB::reset')],
      fns=[(C, r'PositionSmootherAB::'), (C, r'PositionPostprocessor::PositionPostprocessor'), (PE, r'PositionSmoother::')]),
    P('P16', 'Time smoothing interpolates between the last two positions only',
      'The time smoother answers with a point on the segment between the previous and the newest position it was given, proportional to the time elapsed since the newest one and never beyond its ends, dated with the time asked for. A newer position starts a new segment at the position before it, and level changes, empty or first positions are passed through.',
      ['histories', 'inputs'], 'every sequence of positions and query times', TESTS + 'time smoothing is not reached with asserted values.',
      ['src/position_postprocessor/navigation_time_smoother.cpp'], [('interpolation', 'NavigationTimeSmoother::getTimeSmoothedPosition')],
      fns=[(C, r'NavigationTimeSmoother::')]),
    P('P17', 'Level choice follows signal evidence, history and the barometer gate',
      'The level is the one best supported by current signals under the configured scoring, changed only when the recent history supports the change; with the barometer enabled a change is accepted only if the pressure evidence of the configured window supports it. Without evidence the last level is kept.',
      H, 'every sequence of signals, pressures and candidate levels', TESTS + 'tracks are short and mostly single-level.',
      ['src/level_estimator'], [('evidence', 'LevelEstimatorRadiomap / LevelEstimatorTransmitters'), ('history', 'LevelHistory'), ('barometer', 'Barometer'), ('combination', 'LevelEstimator::calculateLevel')],
      fns=[(C, r'LevelEstimator\w*::'), (C, r'LevelHistory::'), (C, r'Barometer::'), (C, r'Likelihood|calcParticleWeight|isParticleInIntersectionArea'), (C, r'calcMean'), (C, r'getAverage(A|Rssi)'), (C, r'NavigationClientImpl::createLevelEstimator'), (C, r'getLevelsRadiomaps'), (C, r'getLevelRadioMeasurements'), (C, r'LevelId::'), (C, r'HasherLevelId'), (C, r'getIntersectedMeasurements')]),
    P('P18', 'Fingerprint positioning weighs reference points by signal similarity',
      'The fingerprint estimator scores every reference point of the level by how well its stored signals match the measured ones over common transmitters, and answers with the weighted average of the best points or of the best triangle, in the level’s coordinates, with the message’s time. Only transmitters of the level count, and no result is given when nothing matches.',
      ['inputs', 'configurations', 'histories'], 'every radio map, measurement set and setting', TESTS + 'a few tracks on two maps exercise it.',
      ['src/knn/knn_utils.cpp', 'src/position_estimator/position_estimator_knn.cpp', 'src/triangulation.cpp'], [('scoring', 'calcRpWeightsKnn'), ('averaging', 'calcKHeaviestRefPointsAverage / calcPositionInTriangle'), ('triangles', 'triangulate')],
      fns=[(C, r'PositionEstimatorKnn::'), (C, r'PositionEstimator::'), (C, r'calcRpWeightsKnn|getWhitelistedMeasurements|calcPositionInTriangle|calcKHeaviestRefPointsAverage|getLevelReferenceTransmittersMap|getTriangleWeight|calcTransmittersWeights|calculateTransmitterTrustworthiness|getLevelsRadiomaps|^triangulate$'),
           (C, r'func_helper|getValueForEachKey'), (C, r'Radiomap::'), (C, r'Triang\w*(::|/|$)'), (C, r'TriangulateVertices'), (C, r'getLevelRadioMeasurements'), (C, r'NavigationClientImpl::createPostitionEstimator'), (C, r'ReferencePoint'), (C, r'HasherReferencePointId')]),
    P('P19', 'Zone positioning answers with the strongest transmitter of the level',
      'The proximity estimator answers with the location of the transmitter of the current level that is strongest among the measured ones after the configured per-level signal rules, marked with that level and the message’s time. It answers empty, with the matching status, when no usable transmitter of that level is heard.',
      ['inputs', 'configurations', 'histories'], 'every measurement set, map and per-level setting', TESTS + 'few tracks use it, with one rule set.',
      ['src/position_estimator/position_estimator_zone.cpp', 'src/level.cpp'], [('nearest transmitter', 'PositionEstimatorZone::calculatePosition')],
      fns=[(C, r'PositionEstimatorZone::'), (C, r'Level::(transmitter|containsTransmitter|id)'), (C, r'getLevelRadioMeasurements'), (C, r'NavigationClientImpl::createPostitionEstimator'), (C, r'Transmitter')]),
    P('P20', 'Geographic and planar geometry primitives are exact and mutually inverse',
      'Converting a geographic point to local metres and back with the same binding point returns the same point, longitudes are wrapped consistently, and distances, areas, projections and intersections satisfy their defining formulas. This includes degenerate arguments such as coincident points and parallel lines, and the barrier test detects every crossing of a barrier.',
      ['inputs'], 'every pair of points, segments, polygons and binding points', TESTS + 'no test calls these directly.',
      ['src/point.cpp', 'src/geometry.cpp', 'src/level_geometry.cpp'], [('conversion', 'gpsToLocal / localToGps'), ('primitives', 'src/geometry.cpp'), ('barriers', 'LevelGeometry::isPathTouchesBarriers')],
      fns=[(C, r'gpsToLocal|localToGps|normalizeLongitude|degToRad'), (C, r'Determinant|PointOnLine|GetProjection|GetIntersection|SegmentPointDist|CheckIntersection|XRayIntersectsLine|GetArea|GetDist'), (C, r'^getProjection'), (C, r'LevelGeometry::'), (C, r'getGeometry'),
           (C, r'(GeoPoint|XYPoint|XYZPoint|GeoPoint3D|XYParticle)::'), (C, r'boost::geometry::traits::access'), (TL, r'getGeoDist'), (TL, r'traits::access|getWidthHeightPair|(GeoPoint|XYPoint|XYZPoint|GeoPoint3D|XYParticle)::'), (C, r'getWidthHeightPair')]),
    P('P21', 'Orientation filters follow quaternion algebra and agree across both copies',
      'Vector and quaternion operations satisfy their algebra (products, conjugates, normalisation, conversion to angles), and the orientation filter combines gyroscope, accelerometer and magnetometer by the same complementary rule in the library and in the standalone copy. Azimuths become invalid after the configured age, and each sensor updates only its own contribution.',
      ['inputs', 'histories'], 'every sensor sequence and every pair of operands', TESTS + 'they check no orientation value.',
      ['src/sensor_fusion', 'src/vector3d.cpp', 'standalone_algorithms/complementary_filter'], [('algebra', 'Vector3d / Quaternion'), ('filter', 'ComplementaryFilter')],
      fns=[(C, r'Quaternion::|Vector3d::|(^|::)operator[-+*/]'), (CF, r'Quaternion::|Vector3d::|(^|::)operator[-+*/=!]'), (C, r'ComplementaryFilter::|updateQuaternion|lowPassFilter|Orientation::'), (CF, r'ComplementaryFilter::|updateQuaternion|lowPassFilter|Orientation::'),
           (PD, r'Vector3d::|(^|::)operator[-+*/=!]'), (C, r'SensorFusion::'), (TL, r'Vector3d::|(^|::)operator[-+*/]')], rules=['siblings_orientation']),
    P('P22', 'Step detection applies the same peak rule in the library and standalone copy',
      'Steps are found where the filtered acceleration magnitude crosses the adaptive thresholds with the required minimum spacing; each step’s length follows from the acceleration amplitude of its own window, and each step is reported exactly once with its own time. Both copies of the pedometer produce the same steps for the same input, and motion information accumulates step count, distance and last motion time from them.',
      ['histories', 'inputs'], 'every acceleration sequence', TESTS + 'they do not assert steps.',
      ['src/sensor_fusion/pedometer.cpp', 'src/sensor_fusion/sensor_fusion.cpp', 'standalone_algorithms/pedometer/src/pedometer.cpp'], [('detector', 'Pedometer::calculateSteps'), ('step length', 'Pedometer::calculateStepLength'), ('motion', 'SensorFusion::calculateDisplacement')],
      fns=[(C, r'Pedometer::|Step::|Magnitude::'), (PD, r'Pedometer::|Step::|Magnitude::'), (C, r'SensorFusion::'), (C, r'MotionInfo::'), (PD, r'parseMeasurements'), (C, r'Vector3d::(magnitude|Vector3d)'), (PD, r'Vector3d::(magnitude|Vector3d)')], rules=['siblings_pedometer']),
    P('P23', 'Every setting is read under its own name and drives its own behaviour',
      'Each documented setting key of a configuration file sets exactly the setting of that name, unset settings keep their documented defaults, and every component takes each of its parameters from the setting meant for it, converted to its own unit (seconds to milliseconds where times are compared). Per-level settings apply to their level only.',
      ['configurations'], 'every configuration file and every subset of keys', TESTS + 'two configurations are loaded, with few non-default keys.',
      ['tools/verification/helpers.cpp', 'include/navigine/navigation-core/navigation_settings.h', 'src'], [('keys', 'from_json of the settings'), ('use', 'constructors taking the settings')],
      fns=[(TL, r'CreateSettingsFromJson'), (TL, r'nlohmann::from_json'), (C, r'(NavigationClientImpl|MeasurementsPreprocessor|PositionPostprocessor|PositionSmoother\w*|PositionEstimator\w*|LevelEstimator\w*|SensorFusion|LikelihoodRadiomap)::(?!~)(NavigationClientImpl|MeasurementsPreprocessor|PositionPostprocessor|PositionSmoother\w*|PositionEstimator\w*|LevelEstimator\w*|SensorFusion|LikelihoodRadiomap)$'),
           (C, r'createRadioMeasurementBuffer|checkUse(Ble|Wifi)|NavigationClientImpl::create\w+')], rules=['defaults']),
    P('P24', 'Every recorded message is decoded to the measurement it represents',
      'Each supported message type of a recorded log becomes one measurement of the matching kind with the same time, and each of its values goes to the field it belongs to (axes in order, identifiers combined the same way as on the map, strengths, distances, coordinates, accuracy). Unknown types are skipped without affecting others.',
      ['inputs'], 'every log with any mixture of message types', TESTS + 'a few logs contain a subset of the types.',
      ['tools/verification/helpers.cpp'], [('decoding', 'from_json of messages, GetNavMessages')],
      fns=[(TL, r'GetNavMessages'), (TL, r'nlohmann::from_json'), (TL, r'removeSame'), (TL, r'NavigationPoint::')]),
    P('P25', 'A built map places everything in one frame and finds it again',
      'All geometry, transmitters, reference points and graph vertices of a level are converted with that level’s own binding point and keep their identifiers and values; each level can be found by its identifier and by each of its transmitters. Map files are read with longitude and latitude in their documented order and every feature attached to its own level.',
      ['inputs', 'configurations'], 'every map file and every sequence of added levels', TESTS + 'two maps are loaded.',
      ['src/level_collector.cpp', 'src/level.cpp', 'tools/verification/helpers.cpp'], [('conversion', 'LevelCollector::addGeoLevel'), ('lookup', 'LevelCollector / Level accessors'), ('map files', 'ParseGeojson')],
      fns=[(C, r'LevelCollector::|In\w*LocalCoordinates|getBinding|createLevelCollector'), (C, r'Level::'), (C, r'LevelGeometry::LevelGeometry|getGeometry$'), (C, r'Graph<\w+>::'), (TL, r'Graph<\w+>::'), (TL, r'ParseGeojson|parse(Level|Graph|Barriers|Transmitter|ReferencePoint)|getVertex|removeSame'), (C, r'Radiomap::'),
           (C, r'(LevelId|TransmitterId|ReferencePointId|Transmitter<\w+>|ReferencePoint<\w+>)::'), (TL, r'(Transmitter<\w+>|ReferencePoint<\w+>|LevelId|TransmitterId|ReferencePointId|Level|LevelCollector|LevelGeometry|Hasher\w+)::'), (C, r'(GeoPoint|GeoPoint3D|XYPoint|XYZPoint)::'), (C, r'gpsToLocal|localToGps|normalizeLongitude')]),
    P('P27', 'Memory use is bounded by the configured windows, however long a session runs',
      'Every buffer kept between calls (signal readings, pressure and magnitude windows, level history, step times, deviation filter, polynomial points, debug states) drops entries older than, or in excess of, its configured limit each time it grows. No history grows with the length of the session.',
      ['histories'], 'sessions of unbounded length', TESTS + 'tracks last minutes.',
      ['src'], [('eviction', 'every member container that is appended to while navigating')],
      fns=[(C, r'RadioMeasurementBuffer::', r'this\.'), (C, r'SigmaFilter::add', r'this\.'), (C, r'PolynomialFit::(removeOldPoints|addSequencePoint)', r'this\.'), (C, r'Barometer::updateBuffers', r'this\.'), (C, r'LevelHistory::', r'this\.'),
           (C, r'Pedometer::(update|calculateSteps|calculateFilteredAccMagnitudes)', r'this\.'), (PD, r'Pedometer::(update|calculateSteps|calculateFilteredAccMagnitudes)', r'this\.'), (PE, r'RadioMeasurementBuffer::', r'this\.'), (TR, r'Trilateration::(updateMeasurements|deleteDuplicateMeasurements|filterUnknownBeacons|fillLocationBeacons)', r'(this|p\d)')],
      rules=['growth']),
    P('P28', 'Objects created by the library are released exactly once',
      'Everything a client creates is released exactly once when the client goes away, through interfaces whose destruction reaches the actual object. Nothing the library hands out refers to something already released or to a temporary.',
      ['histories', 'configurations'], 'every creation and destruction order', TESTS + 'they leak silently at process end.',
      ['src', 'include/navigine/navigation-core', 'standalone_algorithms'], [('owning pointers', 'new/delete and smart pointers'), ('interfaces', 'virtual destructors'), ('references', 'returned references and stored iterators')],
      rules=['ownership'], tech='ownership analysis: new/delete pairing, virtual destructors, returned references to locals'),
    P('P29', 'Trilateration solves for known beacons only and averages duplicates',
      'The standalone trilateration uses only measurements of beacons on its list, merges repeated measurements of a beacon into their averages, and computes coordinates from the three strongest beacons, falling back to the weighted centroid with the matching error code when a solution is impossible. Altitude is the weighted mean over the level’s transmitters heard.',
      ['inputs', 'histories'], 'every set of beacons and measurements, repeated calls included', TESTS + 'the example program is not part of the tests.',
      ['standalone_algorithms/trilateteration/src', 'src/trilateration.cpp'], [('solution', 'Trilateration::calculateCoordinates'), ('preparation', 'Trilateration::updateMeasurements'), ('altitude', 'Trilateration::calculateAltitude')],
      fns=[(TR, r'Trilateration::|findBeaconForMeas|compareBeaconMeasByName'), (TR, r'Beacon(Meas)?::|IBeacon::'), (C, r'Trilateration::calculateAltitude'), (C, r'getIntersectedMeasurements')]),
    P('P30', 'The standalone nearest-transmitter estimator mirrors the library’s rules',
      'The standalone position estimator accepts only valid, supported signals of registered transmitters, averages them over its window, answers with the strongest transmitter’s location and smooths it with the same filter as the library. Its inputs are grouped into packets and transmitters by the file’s own order and time.',
      ['inputs', 'histories'], 'every measurement file and transmitter list', TESTS + 'the example program is not part of the tests.',
      ['standalone_algorithms/position_estimation'], [('estimation', 'NearestTransmitterPositionEstimator'), ('preprocessing', 'MeasurementsPreprocessor'), ('smoothing', 'PositionSmoother')],
      fns=[(PE, r'.*')], rules=[]),
    P('P31', 'Polynomial smoothing predicts from the latest window of points',
      'The least-squares smoother fits, per coordinate, a polynomial of the configured order to the points of the configured time and count window and evaluates it at the requested time; with too few points it interpolates or repeats what is available. Reset and level changes discard earlier points.',
      ['inputs', 'histories'], 'every sequence of points and query times', TESTS + 'they use the other smoother.',
      ['src/position_postprocessor/polynomial_fit.cpp', 'src/position_postprocessor/position_smoother_lstsq.cpp'], [('fit', 'PolynomialFit'), ('smoother', 'PositionSmootherLstsq')],
      fns=[(C, r'PolynomialFit::|solveLinearSystem'), (C, r'PositionSmootherLstsq::'), (C, r'PositionPostprocessor::PositionPostprocessor')]),
]

NOT_APPLICABLE = [
    dict(id='N01', title='Estimated positions are close to the true ones', statement='On realistic recordings the estimated position stays within a few metres of the true position.', over=['inputs'], reason='accuracy is a statistical statement about measured signals; no argument about the source text alone bounds it',
         files=['src/position_estimator'], mech=[('estimators', 'src/position_estimator')]),
    dict(id='N02', title='Processing keeps up with the message rate', statement='Every message is processed fast enough for real-time use on a phone.', over=['inputs', 'histories'], reason='latency is a runtime quantity depending on hardware and data sizes; the loop structure is covered by the bounded-memory property only',
         files=['src/navigation_client_impl.cpp'], mech=[('batch loop', 'navigate')]),
    dict(id='N03', title='Floating-point error does not accumulate over long sessions', statement='After hours of use rounding errors in the filters remain negligible compared with sensor noise.', over=['histories'], reason='needs numerical error bounds over unbounded runs of nonlinear filters; the analysis here works over the reals',
         files=['src/sensor_fusion'], mech=[('filters', 'src/sensor_fusion')]),
    dict(id='N04', title='The step detector counts the user’s true steps', statement='The number of detected steps equals the number of steps the user really made, for every way of carrying the device.', over=['inputs'], reason='compares with a physical ground truth that is not in the source',
         files=['src/sensor_fusion/pedometer.cpp'], mech=[('detector', 'Pedometer')]),
    dict(id='N05', title='The published position settles when the user stands still', statement='With stationary input the published position converges to a fixed point.', over=['histories'], reason='convergence of the closed loop of filters needs quantitative stability analysis over runtime values, beyond value-graph and dataflow reasoning',
         files=['src/position_postprocessor'], mech=[('filters', 'src/position_postprocessor')]),
]


ASSUMPTIONS = [
    'clang 18 parses and type-checks the sources as the build compiler does (same flags, C++17)',
    'arithmetic is reasoned about over the reals: rounding is not modelled',
    'standard, boost and Eigen functions behave as documented; unmodelled ones are uninterpreted functions of their arguments',
    'parse results of translation units that are token-identical to the reviewed tree (source and all included repository headers) are taken from spec/ref',
]
TRUSTED = ['clang 18 front end', 'engine/ev.py, expr.py, values.py, terms.py (evaluation and normalisation of value graphs)', 'engine/compare.py, judge.py', 'the reviewed reference in spec/ref']
