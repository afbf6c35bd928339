import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
T='evaluation/tree.go';M='evaluation/mining.go';R='evaluation/regression.go';I='evaluation/input.go';E='evaluation/evaluation.go';S='evaluation/miningschema.go'
L='models/elements.go';G='models/groups.go';C='models/complexTypes.go'

p('P01','A complete row is scored by the first matching path of the tree',
 'For any decision tree (classification or regression) and any row with a value for every field the tree tests, the prediction is that of the node reached from the root by repeatedly entering the first child, in document order, whose predicate is true. The declared missing-value strategy has no influence on such a row, and if the root predicate is false there is no prediction.',
 ['inputs','configurations'],'over all tree shapes and depths, predicate kinds, field types, rows without missing values, and all six missing-value strategies',
 'The 7 tree tests score one fixed four-field tree with a handful of rows, and the fixtures a few more; shapes with overlapping siblings, deep nesting or other strategies on complete rows are never compared with a reference.',
 [T,E],[('node.evaluate and the six per-strategy walks',T),('TreeModel.Evaluate',T),('newNode (compilation of predicates and children)',T)],['TreeModel.Evaluate / NewModel(...).Evaluate'])
p('P02','Missing values follow the declared missing-value strategy',
 'When a child predicate met on the way down a tree is unknown because of missing values, and no earlier sibling is true, the prediction is the one PMML 4.3 defines for the declared strategy: none (skip the child), lastPrediction (the current node), nullPrediction (no prediction), defaultChild (continue in the declared default child, multiplying confidences by the penalty), weightedConfidence (record-count-weighted mean over the non-false siblings) or aggregateNodes (summed record counts over the non-false leaves). This holds at every depth, recursively, for classification and, where the strategy is meaningful, regression trees, with or without node ids where ids are not needed.',
 ['inputs','configurations'],'over all trees whose nodes carry scores, record counts and default children, all rows with any subset of fields missing, all six strategies',
 'One example row per strategy, all on the same PMML-specification example tree with distinct ids; nothing exercises nested unknowns, an unknown after a true sibling, false siblings, missing ids or a penalty applied twice.',
 [T],[('evaluateMissingValueStrategyNone/LastPrediction/DefaultChild/NullPrediction/WeightedConfidence/AggregateNodes',T)],['TreeModel.Evaluate'])
p('P03','Predicates follow PMML three-valued logic',
 'Every simple predicate (the six comparisons, isMissing, isNotMissing), set predicate (isIn, isNotIn), True, False and compound predicate (and, or, xor, surrogate, nested to any depth) evaluates to the true/false/unknown value PMML defines for it. A comparison or set test on a missing field is unknown, the missing tests are never unknown, and an absent field and a field explicitly present without a value are both missing.',
 ['inputs'],'over all predicate terms up to a bounded size over numeric, string and boolean fields, and all assignments including missing values, compared as predicate outcomes at a tree node',
 'Tests use a few and/or/surrogate predicates over present doubles and strings; the operator x type x missing-value table is mostly unvisited (xor, set predicates, missing tests and constants inside compounds never).',
 [T],[('evaluateSimplePredicate / evaluateCompoundPredicate / evaluateSimpleSetPredicate',T),('compilePredicate',T)],['tree node choice seen through Evaluate'])
p('P04','The score does not depend on the Go type used to pass a value',
 'The same field value passed as any Go integer type, float32 or float64 that represents it exactly, or as its decimal text, gives the same outcome in every predicate, derived field and regression term; booleans likewise as bool or as "true"/"false" text, and strings as strings. The declared type of the field, not the Go type of the input, decides how values are compared.',
 ['inputs'],'over models (trees, regressions, mixed ensembles), rows, and all assignments of Go representations to the same row',
 'Each existing test passes exactly one representation per field (mostly untyped ints and strings), so cross-representation differences cannot be seen.',
 [T,S,R,I,E],[('Value.Float64/Int64/String/Bool',S),('evaluateSimplePredicate',T),('getRawValue',E)],['Model.Evaluate'])
p('P05','Classification trees return the full, consistent class distribution',
 'A classification tree that predicts returns the winning class under the target field name and one probability(class) entry per class of the chosen node\'s score distribution - the declared probability, otherwise its share of the node\'s record counts - and nothing else. The winning class is one with the highest returned probability, and a node without a score distribution gives its own score probability 1 and every other declared target value probability 0.',
 ['inputs','configurations'],'over all trees, score distributions (with and without explicit probabilities and confidences), target declarations (with values, without values) and rows',
 'Tests assert one or two probabilities for one target with three classes; no test covers targets without declared values, explicit probabilities, or checks that nothing extra is returned.',
 [T],[('newNode (distribution normalisation)',T),('outputScoreDist',T),('pickBest and output naming in TreeModel.Evaluate',T)],['DataRow returned by Evaluate'])
p('P06','No-true-child strategy decides between last and null prediction',
 'When a node is entered and none of its children applies, returnLastPrediction yields that node\'s own prediction (no prediction when it has none) and returnNullPrediction yields no prediction. This holds at any depth and for classification and regression trees, a leaf always yields its own prediction, and "no prediction" is reported as an empty result without error.',
 ['inputs','configurations'],'over trees with non-exhaustive splits at any level, both explicit strategies, both mining functions, complete rows',
 'No test sets the attribute together with a non-exhaustive split; fixtures only declare returnLastPrediction on exhaustive trees.',
 [T],[('outputScoreDist',T),('TreeModel.Evaluate (null result)',T)],['TreeModel.Evaluate'])
p('P07','Sum and average ensembles combine exactly the active segments',
 'For a sum or average mining model of regression or classification segments, each declared output is the sum, respectively arithmetic mean, of the values its active segments produce individually on the same row, and a regression ensemble\'s target is that combination multiplied by the rescale factor and then increased by the rescale constant. A segment is active exactly when its predicate is true for the row.',
 ['inputs','configurations'],'over ensembles of 1..n generated trees or regressions, segment predicates, Targets with any combination of factor and constant, rows with and without missing values',
 'The fixtures contain sums with constant 0.5 and averages without rescaling, and only always-true segments; no test compares an ensemble with its members.',
 [M],[('evaluateMultipleModelSum / evaluateMultipleModelAverage',M),('MiningModel.Compile',M)],['MiningModel.Evaluate vs Evaluate of each member'])
p('P08','A model chain feeds each result forward and returns the last one',
 'In a modelChain every output produced by an active segment is visible, under its name, as an input field of all later segments, original inputs stay visible, and the result is exactly that of the last active segment.',
 ['inputs','configurations'],'over chains of 1..4 trees, regressions and nested ensembles, with and without segment predicates, all rows',
 'Two fixtures contain a chain (one shape each) checked on a few verification rows.',
 [M],[('evaluateMultipleModelChain',M)],['MiningModel.Evaluate'])
p('P09','selectFirst returns the first segment whose predicate is true',
 'A selectFirst mining model returns exactly the result of the first segment, in document order, whose predicate is true for the row, and no prediction when there is none; a predicate that is false or unknown never selects its segment. Other segments do not influence the result.',
 ['inputs','configurations'],'over lists of 1..6 segments with overlapping, false, unknown and always-true predicates, and rows with missing values',
 'No fixture or test uses selectFirst at all.',
 [M,T],[('evaluateMultipleModelSelectFirst',M),('segment predicate evaluation',M)],['MiningModel.Evaluate'])
p('P10','A declared missing-value replacement acts like supplying the value',
 'For any model whose mining schema declares a missingValueReplacement for a field, scoring a row in which that field is missing (absent or present without a value) gives the same result as scoring the row with the replacement supplied. A value that is present, including zero, false and the empty string, is never replaced, and fields without a replacement stay missing.',
 ['inputs','configurations'],'over tree, regression and mining models, field types, any set of replaced fields and any subset missing',
 'Fixtures declare replacements in one mining model and verify rows that seldom lack the field; nothing tests other model kinds or present-but-falsy values.',
 [M,I],[('imputeMissingValues / HandleInput',M+', '+I)],['Model.Evaluate, metamorphic'])
p('P11','Regression scores are the normalised linear combination',
 'A regression-function regression model returns, under its output field name, N(intercept + sum of coefficient * value^exponent over numeric predictors + coefficients of matching categorical predictors), where N is identity (none or unspecified), logit, softmax (logistic), exp, cloglog or cauchit as declared. A numeric predictor whose input is missing is an error, never a silent zero.',
 ['inputs','configurations'],'over any number of predictors, real intercepts, coefficients and inputs, integer exponents, and all supported normalisations',
 'Only one fixture has a regression table with logit; other normalisations, exponents, categorical terms and missing inputs are unvisited.',
 [R],[('EvaluateRegression / normalize',R)],['RegressionModel.Evaluate'])
p('P12','Classification regression returns a proper probability distribution',
 'A classification regression model returns, under the name of every output field and nothing else, the probability of that field\'s class: softmax and simplemax of the per-class linear scores, or for two classes with logit, cauchit, cloglog or none the link of the first table\'s linear score and its complement. Except under simplemax and none the probabilities are finite, lie in [0,1] and, over all classes, sum to 1 for every row whose linear scores are finite, however large.',
 ['inputs','configurations'],'over 2..6 classes, any number of predictors per table, any order of output fields, classes without one or with two, coefficients and inputs including magnitudes that overflow exp',
 'Fixtures have one 3-class simplemax model and two-class models with a single coefficient of exactly 1 and intercept 0, so coefficients, intercepts and overflow are never exercised.',
 [R],[('EvaluateBinaryClassification / EvaluateMulticlassClassification',R)],['RegressionModel.Evaluate'])
p('P13','Derived fields compute their expression over the row',
 'A derived field (local transformation, or global transformation dictionary) evaluates the nested field references, double constants, + - * / sum, isMissing, isNotMissing and three-argument if expressions it is defined by, in document order so that later fields may use earlier ones, and the model then sees its value as if it had been supplied. Arithmetic with a missing operand yields a missing value rather than a number, unless mapMissingTo or defaultValue provides one.',
 ['inputs','programs'],'over expression trees up to a bounded depth, chains of derived fields, tree, regression and mining models, and rows with missing values',
 'Fixtures contain a PCA sum-of-products and one if/isNotMissing pattern, verified on a few complete rows.',
 [I],[('HandleInput / HandleExpression / handleApplyExpression',I)],['HandleExpression, HandleInput and Model.Evaluate'])
p('P14','MapValues looks up the declared columns',
 'A MapValues expression returns the output-column cell of the first inline-table row whose cells equal the values of all paired input fields, whatever the columns are called and in whatever order they appear. Without a matching row it gives the declared default, and when an input is missing the declared mapMissingTo value.',
 ['inputs','configurations'],'over tables with 1..3 input columns, arbitrary column names with or without namespace prefix, duplicate rows, defaults, and string or integer inputs',
 'Only one fixture uses MapValues, always with columns called data:input and data:output and one input field.',
 [I,L],[('handleMapValuesExpression',I),('Row/InlineTable decoding',L)],['HandleExpression'])
p('P15','Scoring is pure: no mutation, no history, deterministic',
 'Evaluating a row never changes the caller\'s row, and for a given model and row the result is bit-for-bit the same every time: whatever rows were scored before, however often Validate, Compile or Verify are called again, and whether or not other models were built from the same document. Building models from a document leaves its data and transformation dictionaries unchanged.',
 ['histories','inputs'],'over sequences of evaluate / verify / validate / compile / rebuild operations on one decoded document and several rows, all model kinds',
 'Tests build a model once and score each row once, so accumulated state, map-order dependence and input mutation are invisible.',
 [T,M,I,R],[('HandleInput (row handling)',I),('MiningModel.Compile / TreeModel.Compile',M+', '+T),('distribution aggregation',T)],['Model.* call sequences'],[('td.DerivedFields','shared dictionary extended by Compile',T),('segmodels','compiled members',M)])
p('P16','A compiled model can score rows from many goroutines',
 'A model that has been built can be evaluated concurrently from any number of goroutines, each with its own row, without data races or crashes, and every call returns what it would return alone.',
 ['schedules','inputs'],'over all model kinds and concurrent sets of rows, under the race detector and repeated random schedules',
 'No test evaluates concurrently and the suite is not run under the race detector.',
 [T,M,R,I],[('TreeModel.Evaluate (output key cache)',T),('HandleInput',I),('lazy array caches',C)],['Model.Evaluate in parallel'])
p('P17','Verification accepts exactly the models that reproduce their records',
 'Verify succeeds when every verification record\'s expected outputs are reproduced by the model from the record\'s inputs, for positive, zero and negative values, and fails when any expected number is off by more than a small relative tolerance (1e-5, zero being met by zero only), any predicted number is NaN, any expected class label differs, or an expected output is not produced. Inputs are taken from the field each column is declared for, even if the column is named differently.',
 ['inputs','configurations'],'over generated models, verification tables computed by the reference and perturbed in one cell, column namings, and both signs and magnitudes of outputs',
 'TestEvaluation only checks that correct fixtures with positive outputs are accepted; nothing checks that a wrong record is rejected.',
 [E],[('verifyModel',E)],['Model.Verify'])
p('P18','Decoding reproduces the model structure, in document order',
 'Decoding a PMML document yields the same data dictionary, mining schema, transformations, outputs, targets, segments, nodes, predicates, expressions, tables and score distributions as written, with all children in document order, all attribute values, and entity-escaped characters restored.',
 ['inputs','programs'],'over generated documents using every supported tree, mining, regression, predicate, expression, table and distribution element, with arbitrary legal attribute strings',
 'Model tests decode seven isolated small elements; the fixtures are decoded but the resulting structure is never inspected.',
 [L,G,C],[('UnmarshalXML implementations',L),('GetModelElement/GetPredicate/GetExpression/...',G)],['xml.Unmarshal into models.PMML'])
p('P19','Irrelevant XML detail does not change the decoded model',
 'Comments, processing instructions, whitespace, attribute order, namespace prefixes and declarations, self-closing versus paired tags, CDATA versus escaped text, and Extension or unknown foreign elements and attributes inserted anywhere the schema allows extensions do not change what a document decodes to (other than the recorded extensions) or how it scores.',
 ['inputs'],'over generated documents and random sequences of such rewrites applied at random places',
 'The fixtures come from one exporter and contain no extensions inside models, foreign elements or alternative prefixes.',
 [L],[('hand-written UnmarshalXML token loops',L)],['xml.Unmarshal + Evaluate'])
p('P20','No input makes decoding, building or scoring panic or hang',
 'For any byte string, decoding returns a document or an error; for any document that decodes, building every model returns a model or an error; and for any model so obtained, scoring any row or verifying returns a result or an error. None of these panics, overflows or fails to terminate, and a truncated document is always an error.',
 ['inputs','fault_sequences'],'over mutated, spliced and truncated documents (byte level, and structure level: removed or duplicated elements and attributes, odd values), and arbitrary rows including empty rows and valueless fields',
 'Every test feeds well-formed documents and rows with values for the fields used.',
 [L,T,M,R,I,E],[('UnmarshalXML',L),('newNode/compilePredicate',T),('Evaluate methods',T+', '+M+', '+R)],['xml.Unmarshal, NewModel, Evaluate, Verify'])
p('P21','PMML arrays parse to exactly the written items',
 'The items of an int, real or string array are recovered in order and exactly from its text: items separated by any whitespace, string items optionally double-quoted with \\" escapes, and any other character, including shell metacharacters and XML-escaped ones, taken literally. Reading an array as the wrong type, or with a malformed number or unbalanced quote, is an error.',
 ['inputs'],'over arrays of arbitrary printable strings, int64 and float64 values, with arbitrary separators and optional quoting',
 'TestArrayType covers three literal arrays of simple items.',
 [C],[('ArrayType.Strings/Int64s/Float64s',C)],['models.ArrayType methods, decoded arrays'])
p('P22','Every model, predicate, expression and table kind is dispatched by name',
 'Each of the PMML model, predicate, expression, table, embedded-model and continuous-distribution element names decodes to its own distinct type and only those names do, wherever the schema allows that group, and a document or segment with several of them keeps all in order.',
 ['inputs','programs'],'over all element names of the six groups and arbitrary other names, in every position that accepts the group, in arbitrary sequences',
 'Tests exercise dispatch for three or four of the 42 names.',
 [G,L],[('Get* dispatch functions',G),('UnmarshalXML switches',L)],['xml.Unmarshal, models.Get*'])
p('P23','Attributes left out take their schema defaults',
 'A document that omits an optional attribute which has a schema default and that influences scoring (missing-value penalty 1, missing-value strategy none, numeric-predictor exponent 1, normalisation none, target rescaling 1 and 0, mining-field usage active, Apply invalid-value treatment) scores exactly like the same document with the default written out, and the decoded value, before and after a model is built, is either left empty or the default.',
 ['inputs','configurations'],'over generated documents and any subset of the defaulted attributes',
 'Only the Apply default is tested; fixtures never compare explicit and omitted forms.',
 [L,T,R,M],[('default handling in UnmarshalXML',L),('Validate methods',T+', '+R+', '+M)],['Evaluate, decoded fields'])
p('P24','What cannot be scored faithfully is rejected, not guessed',
 'Building or scoring returns an error, never a prediction, for a model kind, mining function, multiple-model method, expression kind, function name, argument count, normalisation, predicate operator, output feature or data type outside the supported set, for a predicate on a field that is undeclared or only produced by a later or foreign segment or with a constant that is not of the field\'s type, for a segment without exactly one model or with several predicates, for a regression function without exactly one output, for a tree node without a predicate, and for a node of a regression tree whose score is no number.',
 ['inputs','programs'],'over valid generated models in which exactly one construct is replaced by an unsupported or malformed one on the path that the row takes',
 'No test checks any rejection.',
 [E,T,M,R,I],[('NewModel, Validate, compilePredicate, normalize, handleApplyExpression',E+', '+T+', '+M+', '+R+', '+I)],['NewModel / Evaluate error results'])
p('P25','Value conversions are exact and total',
 'Converting a value to float64, float32, int64, bool or string returns exactly the number, truth value or text it holds whenever that is representable in the target, for every Go numeric type and for numeric text, text of a fractional number being the shortest that reads back as it; white space around text does not matter to numbers and truth values, what holds no number converts to 0 and what holds no truth value to false; conversions never panic, and Raw returns the value unchanged.',
 ['inputs'],'over all Go scalar types with boundary and random contents, numeric and arbitrary strings, nil and Stringer values',
 'No test calls the conversions directly.',
 [S],[('Value methods',S)],['Value.Float64/Float32/Int64/Bool/String/Raw'])
p('P26','Every modelled attribute decodes under its own name',
 'For each element the library models with fields - header, dictionaries, mining schema, statistics, outputs, targets, verification, kernels, distributions and the association, baseline, tree, mining and regression models - every schema attribute and child the structure has a field for appears, when present in a document, in the field of that name with the written value and in document order, and what is absent leaves its field as an empty element has it.',
 ['inputs','programs'],'over random instances of the schema fragment the library models, with unique values in every attribute',
 'Model tests look at seven elements; most of the roughly 180 mapped attributes are never read by any test.',
 [L,C,G],[('struct tags and UnmarshalXML',L)],['xml.Unmarshal'])
p('P27','Nested ensembles equal their members composed by hand',
 'A mining model whose segments are themselves mining models, trees and regressions (chains of sums, sums of chains, selections of averages, with transformations and replacements at any level) scores like the PMML definition applied recursively: each segment sees the row with the fields derived, replaced and produced at its enclosing levels and nothing from sibling segments other than chain outputs.',
 ['inputs','programs'],'over nested ensembles up to depth 3 with transformations and replacements at every level, and rows with missing values',
 'Fixtures have two fixed nestings, both chains.',
 [M,I,T,R],[('MiningModel.Compile/Evaluate',M),('HandleInput',I)],['MiningModel.Evaluate vs reference evaluator'])
p('P28','Exported names of enumerated values stand for the schema values',
 'Each exported constant for an enumerated PMML value (mining functions, link and normalization functions, multiple-model methods, result features, missing-value strategies, operators, operational types and the others: 244 names of 44 types) equals the text the schema gives that value and no other constant of its type does, so that an attribute with that text, decoded anywhere in a document, compares equal to exactly that constant.',
 ['inputs','programs'],'over every exported name and random elements with enumerated attributes',
 'Only the few constants the evaluator switches on and fixtures contain are ever compared with a decoded value.',
 ['models/simpleTypes.go',L,C],[('constants','models/simpleTypes.go'),('constants and attribute types',L)],['exported constants','xml.Unmarshal'])
p('P29','A value that is not of its attribute\'s type makes decoding fail',
 'When a numeric or boolean attribute of a modelled element, at any depth and in any branch of a document, holds a text that is not a number (an integer, for integer attributes) or a boolean, decoding the document returns an error: it is neither ignored, nor read as zero, nor cut short, nor does it drop the element.',
 ['inputs','programs'],'over random elements of the modelled schema with one attribute at any depth made invalid',
 'No test decodes a malformed attribute; most numeric attributes are never read by a test.',
 [L,G,C],[('UnmarshalXML methods',L)],['xml.Unmarshal'])
p('P30','Names carry no meaning',
 'Giving everything in a document that has a name another one, consistently and without two things seen in the same place sharing one - fields, derived fields, outputs, targets, class labels, node and segment ids, MapValues columns, and values of categorical fields that are only compared for equality - and the keys and values of the rows accordingly, changes scoring results in nothing but those names; in particular derived fields, and single outputs of ensemble members, of sibling models may share a name, and names that differ in case, white space or a suffix only stay apart.',
 ['inputs','programs'],'over generated documents of all model kinds, rows, and renamings including permutations of the names in use and sets of near-identical names',
 'Fixtures use one fixed, well-separated set of names each; no test compares a document with a renamed one.',
 [E,T,M,R,I],[('HandleInput, compilePredicate',I+', '+E),('segment outputs, predictedScore',M),('score distributions and default children',T)],['Evaluate of two related documents'])
p('P31','Parts that cannot matter do not',
 'Adding to a document and its rows what the definition of PMML gives no part in a score leaves every model\'s results as they are: values and dictionary, mining and derived fields nothing refers to, further models, nodes (below nodes that have children already) and segments whose predicate is false for every row, operands true of an and, false of an or or xor, categorical predictors for values that do not occur, numeric ones with coefficient 0, repeated set items and items that do not occur, table rows that are never the first to match, and row entries named like results.',
 ['inputs','programs'],'over generated documents of all model kinds, rows, and random sets of such additions at random places',
 'Every test scores one fixed document with exactly the fields it needs.',
 [E,T,M,R,I],[('HandleInput',I),('segment and node tests',M+', '+T),('NewModel',E)],['NewModel, Evaluate of two related documents'])
p('P32','Decoded documents and models have nothing in common',
 'What is decoded from one text is independent of everything else decoded: overwriting any value reachable from one decoded document, or reusing the bytes it was read from, leaves other decoded documents, the other models of the same document when only one model is overwritten, models built from them, their scores, and what decoding gives afterwards unchanged; building and scoring a model changes no other model and no dictionary; and documents may be decoded, and the models of one document built and scored, by several goroutines at once with the same results and without data races.',
 ['inputs','histories','schedules'],'over pairs of generated documents, any overwriting of one of them, and decoding and building by up to 7 goroutines',
 'Tests decode a handful of files once each and never change what they got.',
 [L,G,C,E,M],[('UnmarshalXML methods and default values',L),('element dispatch',G),('NewModel, Compile',E+', '+M)],['xml.Unmarshal, NewModel, Evaluate'])
p('P33','Orders that mean nothing change nothing',
 'Listing in another order what PMML gives no order - data fields and their values, mining fields, derived fields that do not use one another, the arguments of +, * and sum, table rows for different keys, their cells and column pairs, set items, operands of and, or and xor, score distributions, predictors, the tables of a softmax, outputs, the segments of a sum or average, the models of a document - leaves the results of every model as they are, up to rounding.',
 ['inputs','programs'],'over generated documents of all model kinds, rows with and without missing values, and random sets of such reorderings',
 'Each test has one document in one order.',
 [E,T,M,R,I],[('compound predicates',E+', '+T),('sums and averages',M),('terms and tables',R),('tables, sets, dependencies of derived fields',I)],['Evaluate of two related documents'])
p('P34','The same thing said otherwise scores the same',
 'Rewriting a document by the laws of what it says leaves results as they are, up to rounding, for complete and incomplete rows: predicates by three-valued logic and the laws of order (an operator denied for its opposite, De Morgan, grouping, distribution, a set for equalities, weak for strict orders), parts of expressions as derived fields of their own, global derived fields as local ones, a node replaced by a node below it, a predictor split in two, scores of a softmax moved together, a constant as a predictor of power 0, a model alone in an ensemble, a member in an ensemble of its own, every segment of an average twice, a summand split in two.',
 ['inputs','programs'],'over generated documents of all model kinds, rows with and without missing values, and random sets of such rewritings',
 'No test compares two documents; the equivalences relate code paths (predicate kinds, model kinds, levels) that tests exercise one at a time.',
 [E,T,M,R,I],[('compilePredicate and predicates',E),('tree walks',T),('segment evaluation and combination',M),('regression tables',R),('HandleInput',I)],['Evaluate of two related documents'])
p('P35','Transformations by themselves give the fields PMML defines',
 'HandleInput, given a row, the dictionaries, the local transformations and the mining schema of a model, returns the row with replacements for the missing values that have one and with every global and local derived field that has a value, and nothing else: supplied values stay the same Go values, the row given and the document stay untouched, and doing it again, or to its own result, changes nothing; HandleExpression gives the value of any expression for such a row.',
 ['inputs','programs'],'over generated expressions, MapValues tables, chains of derived fields, replacements and rows in all Go representations with missing values',
 'Unit tests call HandleInput with one or two derived fields and complete rows and look at one value; they never look at the row they passed or at what else comes back.',
 [I,S],[('HandleInput, HandleExpression and the functions they apply',I),('conversions',S)],['HandleInput, HandleExpression'])
p('P36','Units and scales mean nothing',
 'Giving a numeric field that is only compared - in predicates, sets and replacements - other values in the same order, in the document and the rows, down to neighbouring numbers and up to the ends of the range of its type; measuring a field that is calculated with in another unit, with constants compared with it, its coefficients and references to it changed accordingly; counting the records of a tree in another unit; and multiplying all scores of a simplemax leave the results of every model as they are, up to rounding.',
 ['inputs','programs'],'over generated documents of all model kinds, rows with and without missing values, and random changes of values, units and counts',
 'Tests use one scale: small round numbers and whole record counts.',
 [E,T,M,R,I,S],[('comparison of values',T+', '+S),('record counts and weights',T),('coefficients and exponents',R),('arithmetic',I)],['Evaluate of two related documents'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
