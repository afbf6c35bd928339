//go:build p28

package main

// Written by tools/make_consts.py.

import (
	"reflect"

	"github.com/flukeish/pmml/models"
)

func init() {
	constTable = []constEntry{
		{"ActivationFunction", "Elliott", "ActivationFunctionElliott", reflect.ValueOf(models.ActivationFunctionElliott)},
		{"ActivationFunction", "Gauss", "ActivationFunctionGauss", reflect.ValueOf(models.ActivationFunctionGauss)},
		{"ActivationFunction", "arctan", "ActivationFunctionArctan", reflect.ValueOf(models.ActivationFunctionArctan)},
		{"ActivationFunction", "cosine", "ActivationFunctionCosine", reflect.ValueOf(models.ActivationFunctionCosine)},
		{"ActivationFunction", "exponential", "ActivationFunctionExponential", reflect.ValueOf(models.ActivationFunctionExponential)},
		{"ActivationFunction", "identity", "ActivationFunctionIdentity", reflect.ValueOf(models.ActivationFunctionIdentity)},
		{"ActivationFunction", "logistic", "ActivationFunctionLogistic", reflect.ValueOf(models.ActivationFunctionLogistic)},
		{"ActivationFunction", "radialBasis", "ActivationFunctionRadialBasis", reflect.ValueOf(models.ActivationFunctionRadialBasis)},
		{"ActivationFunction", "reciprocal", "ActivationFunctionReciprocal", reflect.ValueOf(models.ActivationFunctionReciprocal)},
		{"ActivationFunction", "rectifier", "ActivationFunctionRectifier", reflect.ValueOf(models.ActivationFunctionRectifier)},
		{"ActivationFunction", "sine", "ActivationFunctionSine", reflect.ValueOf(models.ActivationFunctionSine)},
		{"ActivationFunction", "square", "ActivationFunctionSquare", reflect.ValueOf(models.ActivationFunctionSquare)},
		{"ActivationFunction", "tanh", "ActivationFunctionTanh", reflect.ValueOf(models.ActivationFunctionTanh)},
		{"ActivationFunction", "threshold", "ActivationFunctionThreshold", reflect.ValueOf(models.ActivationFunctionThreshold)},
		{"BaselineTestStatistic", "CUSUM", "BaselineTestStatisticCUSUM", reflect.ValueOf(models.BaselineTestStatisticCUSUM)},
		{"BaselineTestStatistic", "chiSquareDistribution", "BaselineTestStatisticChiSquareDistribution", reflect.ValueOf(models.BaselineTestStatisticChiSquareDistribution)},
		{"BaselineTestStatistic", "chiSquareIndependence", "BaselineTestStatisticChiSquareIndependence", reflect.ValueOf(models.BaselineTestStatisticChiSquareIndependence)},
		{"BaselineTestStatistic", "scalarProduct", "BaselineTestStatisticScalarProduct", reflect.ValueOf(models.BaselineTestStatisticScalarProduct)},
		{"BaselineTestStatistic", "zValue", "BaselineTestStatisticZValue", reflect.ValueOf(models.BaselineTestStatisticZValue)},
		{"CatScoringMethod", "majorityVote", "CatScoringMethodMajorityVote", reflect.ValueOf(models.CatScoringMethodMajorityVote)},
		{"CatScoringMethod", "weightedMajorityVote", "CatScoringMethodWeightedMajorityVote", reflect.ValueOf(models.CatScoringMethodWeightedMajorityVote)},
		{"CompareFunction", "absDiff", "CompareFunctionAbsDiff", reflect.ValueOf(models.CompareFunctionAbsDiff)},
		{"CompareFunction", "delta", "CompareFunctionDelta", reflect.ValueOf(models.CompareFunctionDelta)},
		{"CompareFunction", "equal", "CompareFunctionEqual", reflect.ValueOf(models.CompareFunctionEqual)},
		{"CompareFunction", "gaussSim", "CompareFunctionGaussSim", reflect.ValueOf(models.CompareFunctionGaussSim)},
		{"CompareFunction", "table", "CompareFunctionTable", reflect.ValueOf(models.CompareFunctionTable)},
		{"ContScoringMethod", "average", "ContScoringMethodAverage", reflect.ValueOf(models.ContScoringMethodAverage)},
		{"ContScoringMethod", "median", "ContScoringMethodMedian", reflect.ValueOf(models.ContScoringMethodMedian)},
		{"ContScoringMethod", "weightedAverage", "ContScoringMethodWeightedAverage", reflect.ValueOf(models.ContScoringMethodWeightedAverage)},
		{"CumulativeLinkFunction", "cauchit", "CumulativeLinkFunctionCauchit", reflect.ValueOf(models.CumulativeLinkFunctionCauchit)},
		{"CumulativeLinkFunction", "cloglog", "CumulativeLinkFunctionCloglog", reflect.ValueOf(models.CumulativeLinkFunctionCloglog)},
		{"CumulativeLinkFunction", "logit", "CumulativeLinkFunctionLogit", reflect.ValueOf(models.CumulativeLinkFunctionLogit)},
		{"CumulativeLinkFunction", "loglog", "CumulativeLinkFunctionLoglog", reflect.ValueOf(models.CumulativeLinkFunctionLoglog)},
		{"CumulativeLinkFunction", "probit", "CumulativeLinkFunctionProbit", reflect.ValueOf(models.CumulativeLinkFunctionProbit)},
		{"DataType", "boolean", "DataTypeBoolean", reflect.ValueOf(models.DataTypeBoolean)},
		{"DataType", "date", "DataTypeDate", reflect.ValueOf(models.DataTypeDate)},
		{"DataType", "dateDaysSince[0]", "DataTypeDateDaysSince0", reflect.ValueOf(models.DataTypeDateDaysSince0)},
		{"DataType", "dateDaysSince[1960]", "DataTypeDateDaysSince1960", reflect.ValueOf(models.DataTypeDateDaysSince1960)},
		{"DataType", "dateDaysSince[1970]", "DataTypeDateDaysSince1970", reflect.ValueOf(models.DataTypeDateDaysSince1970)},
		{"DataType", "dateDaysSince[1980]", "DataTypeDateDaysSince1980", reflect.ValueOf(models.DataTypeDateDaysSince1980)},
		{"DataType", "dateTime", "DataTypeDateTime", reflect.ValueOf(models.DataTypeDateTime)},
		{"DataType", "dateTimeSecondsSince[0]", "DataTypeDateTimeSecondsSince0", reflect.ValueOf(models.DataTypeDateTimeSecondsSince0)},
		{"DataType", "dateTimeSecondsSince[1960]", "DataTypeDateTimeSecondsSince1960", reflect.ValueOf(models.DataTypeDateTimeSecondsSince1960)},
		{"DataType", "dateTimeSecondsSince[1970]", "DataTypeDateTimeSecondsSince1970", reflect.ValueOf(models.DataTypeDateTimeSecondsSince1970)},
		{"DataType", "dateTimeSecondsSince[1980]", "DataTypeDateTimeSecondsSince1980", reflect.ValueOf(models.DataTypeDateTimeSecondsSince1980)},
		{"DataType", "double", "DataTypeDouble", reflect.ValueOf(models.DataTypeDouble)},
		{"DataType", "float", "DataTypeFloat", reflect.ValueOf(models.DataTypeFloat)},
		{"DataType", "integer", "DataTypeInteger", reflect.ValueOf(models.DataTypeInteger)},
		{"DataType", "string", "DataTypeString", reflect.ValueOf(models.DataTypeString)},
		{"DataType", "time", "DataTypeTime", reflect.ValueOf(models.DataTypeTime)},
		{"DataType", "timeSeconds", "DataTypeTimeSeconds", reflect.ValueOf(models.DataTypeTimeSeconds)},
		{"DelimiterType", "acrossTimeWindows", "DelimiterTypeAcrossTimeWindows", reflect.ValueOf(models.DelimiterTypeAcrossTimeWindows)},
		{"DelimiterType", "sameTimeWindow", "DelimiterTypeSameTimeWindow", reflect.ValueOf(models.DelimiterTypeSameTimeWindow)},
		{"FieldUsageType", "active", "FieldUsageTypeActive", reflect.ValueOf(models.FieldUsageTypeActive)},
		{"FieldUsageType", "analysisWeight", "FieldUsageTypeAnalysisWeight", reflect.ValueOf(models.FieldUsageTypeAnalysisWeight)},
		{"FieldUsageType", "frequencyWeight", "FieldUsageTypeFrequencyWeight", reflect.ValueOf(models.FieldUsageTypeFrequencyWeight)},
		{"FieldUsageType", "group", "FieldUsageTypeGroup", reflect.ValueOf(models.FieldUsageTypeGroup)},
		{"FieldUsageType", "order", "FieldUsageTypeOrder", reflect.ValueOf(models.FieldUsageTypeOrder)},
		{"FieldUsageType", "predicted", "FieldUsageTypePredicted", reflect.ValueOf(models.FieldUsageTypePredicted)},
		{"FieldUsageType", "supplementary", "FieldUsageTypeSupplementary", reflect.ValueOf(models.FieldUsageTypeSupplementary)},
		{"FieldUsageType", "target", "FieldUsageTypeTarget", reflect.ValueOf(models.FieldUsageTypeTarget)},
		{"Gap", "false", "GapFalse", reflect.ValueOf(models.GapFalse)},
		{"Gap", "true", "GapTrue", reflect.ValueOf(models.GapTrue)},
		{"Gap", "unknown", "GapUnknown", reflect.ValueOf(models.GapUnknown)},
		{"InterpolationMethod", "cubicSpline", "InterpolationMethodCubicSpline", reflect.ValueOf(models.InterpolationMethodCubicSpline)},
		{"InterpolationMethod", "exponentialSpline", "InterpolationMethodExponentialSpline", reflect.ValueOf(models.InterpolationMethodExponentialSpline)},
		{"InterpolationMethod", "linear", "InterpolationMethodLinear", reflect.ValueOf(models.InterpolationMethodLinear)},
		{"InterpolationMethod", "none", "InterpolationMethodNone", reflect.ValueOf(models.InterpolationMethodNone)},
		{"InvalidValueTreatmentMethod", "asIs", "InvalidValueTreatmentMethodAsIs", reflect.ValueOf(models.InvalidValueTreatmentMethodAsIs)},
		{"InvalidValueTreatmentMethod", "asMissing", "InvalidValueTreatmentMethodAsMissing", reflect.ValueOf(models.InvalidValueTreatmentMethodAsMissing)},
		{"InvalidValueTreatmentMethod", "returnInvalid", "InvalidValueTreatmentMethodReturnInvalid", reflect.ValueOf(models.InvalidValueTreatmentMethodReturnInvalid)},
		{"LinkFunction", "cloglog", "LinkFunctionCloglog", reflect.ValueOf(models.LinkFunctionCloglog)},
		{"LinkFunction", "identity", "LinkFunctionIdentity", reflect.ValueOf(models.LinkFunctionIdentity)},
		{"LinkFunction", "log", "LinkFunctionLog", reflect.ValueOf(models.LinkFunctionLog)},
		{"LinkFunction", "logc", "LinkFunctionLogc", reflect.ValueOf(models.LinkFunctionLogc)},
		{"LinkFunction", "logit", "LinkFunctionLogit", reflect.ValueOf(models.LinkFunctionLogit)},
		{"LinkFunction", "loglog", "LinkFunctionLoglog", reflect.ValueOf(models.LinkFunctionLoglog)},
		{"LinkFunction", "negbin", "LinkFunctionNegbin", reflect.ValueOf(models.LinkFunctionNegbin)},
		{"LinkFunction", "oddspower", "LinkFunctionOddspower", reflect.ValueOf(models.LinkFunctionOddspower)},
		{"LinkFunction", "power", "LinkFunctionPower", reflect.ValueOf(models.LinkFunctionPower)},
		{"LinkFunction", "probit", "LinkFunctionProbit", reflect.ValueOf(models.LinkFunctionProbit)},
		{"MiningFunction", "associationRules", "MiningFunctionAssociationRules", reflect.ValueOf(models.MiningFunctionAssociationRules)},
		{"MiningFunction", "classification", "MiningFunctionClassification", reflect.ValueOf(models.MiningFunctionClassification)},
		{"MiningFunction", "clustering", "MiningFunctionClustering", reflect.ValueOf(models.MiningFunctionClustering)},
		{"MiningFunction", "mixed", "MiningFunctionMixed", reflect.ValueOf(models.MiningFunctionMixed)},
		{"MiningFunction", "regression", "MiningFunctionRegression", reflect.ValueOf(models.MiningFunctionRegression)},
		{"MiningFunction", "sequences", "MiningFunctionSequences", reflect.ValueOf(models.MiningFunctionSequences)},
		{"MiningFunction", "timeSeries", "MiningFunctionTimeSeries", reflect.ValueOf(models.MiningFunctionTimeSeries)},
		{"MissingValueStrategy", "aggregateNodes", "MissingValueStrategyAggregateNodes", reflect.ValueOf(models.MissingValueStrategyAggregateNodes)},
		{"MissingValueStrategy", "defaultChild", "MissingValueStrategyDefaultChild", reflect.ValueOf(models.MissingValueStrategyDefaultChild)},
		{"MissingValueStrategy", "lastPrediction", "MissingValueStrategyLastPrediction", reflect.ValueOf(models.MissingValueStrategyLastPrediction)},
		{"MissingValueStrategy", "none", "MissingValueStrategyNone", reflect.ValueOf(models.MissingValueStrategyNone)},
		{"MissingValueStrategy", "nullPrediction", "MissingValueStrategyNullPrediction", reflect.ValueOf(models.MissingValueStrategyNullPrediction)},
		{"MissingValueStrategy", "weightedConfidence", "MissingValueStrategyWeightedConfidence", reflect.ValueOf(models.MissingValueStrategyWeightedConfidence)},
		{"MissingValueTreatmentMethod", "asIs", "MissingValueTreatmentMethodAsIs", reflect.ValueOf(models.MissingValueTreatmentMethodAsIs)},
		{"MissingValueTreatmentMethod", "asMean", "MissingValueTreatmentMethodAsMean", reflect.ValueOf(models.MissingValueTreatmentMethodAsMean)},
		{"MissingValueTreatmentMethod", "asMedian", "MissingValueTreatmentMethodAsMedian", reflect.ValueOf(models.MissingValueTreatmentMethodAsMedian)},
		{"MissingValueTreatmentMethod", "asMode", "MissingValueTreatmentMethodAsMode", reflect.ValueOf(models.MissingValueTreatmentMethodAsMode)},
		{"MissingValueTreatmentMethod", "asValue", "MissingValueTreatmentMethodAsValue", reflect.ValueOf(models.MissingValueTreatmentMethodAsValue)},
		{"MultipleModelMethod", "average", "MultipleModelMethodAverage", reflect.ValueOf(models.MultipleModelMethodAverage)},
		{"MultipleModelMethod", "majorityVote", "MultipleModelMethodMajorityVote", reflect.ValueOf(models.MultipleModelMethodMajorityVote)},
		{"MultipleModelMethod", "max", "MultipleModelMethodMax", reflect.ValueOf(models.MultipleModelMethodMax)},
		{"MultipleModelMethod", "median", "MultipleModelMethodMedian", reflect.ValueOf(models.MultipleModelMethodMedian)},
		{"MultipleModelMethod", "modelChain", "MultipleModelMethodModelChain", reflect.ValueOf(models.MultipleModelMethodModelChain)},
		{"MultipleModelMethod", "selectAll", "MultipleModelMethodSelectAll", reflect.ValueOf(models.MultipleModelMethodSelectAll)},
		{"MultipleModelMethod", "selectFirst", "MultipleModelMethodSelectFirst", reflect.ValueOf(models.MultipleModelMethodSelectFirst)},
		{"MultipleModelMethod", "sum", "MultipleModelMethodSum", reflect.ValueOf(models.MultipleModelMethodSum)},
		{"MultipleModelMethod", "weightedAverage", "MultipleModelMethodWeightedAverage", reflect.ValueOf(models.MultipleModelMethodWeightedAverage)},
		{"MultipleModelMethod", "weightedMajorityVote", "MultipleModelMethodWeightedMajorityVote", reflect.ValueOf(models.MultipleModelMethodWeightedMajorityVote)},
		{"NNNormalizationMethod", "none", "NNNormalizationMethodNone", reflect.ValueOf(models.NNNormalizationMethodNone)},
		{"NNNormalizationMethod", "simplemax", "NNNormalizationMethodSimplemax", reflect.ValueOf(models.NNNormalizationMethodSimplemax)},
		{"NNNormalizationMethod", "softmax", "NNNormalizationMethodSoftmax", reflect.ValueOf(models.NNNormalizationMethodSoftmax)},
		{"NoTrueChildStrategy", "returnLastPrediction", "NoTrueChildStrategyReturnLastPrediction", reflect.ValueOf(models.NoTrueChildStrategyReturnLastPrediction)},
		{"NoTrueChildStrategy", "returnNullPrediction", "NoTrueChildStrategyReturnNullPrediction", reflect.ValueOf(models.NoTrueChildStrategyReturnNullPrediction)},
		{"OpType", "categorical", "OpTypeCategorical", reflect.ValueOf(models.OpTypeCategorical)},
		{"OpType", "continuous", "OpTypeContinuous", reflect.ValueOf(models.OpTypeContinuous)},
		{"OpType", "ordinal", "OpTypeOrdinal", reflect.ValueOf(models.OpTypeOrdinal)},
		{"OutlierTreatmentMethod", "asExtremeValues", "OutlierTreatmentMethodAsExtremeValues", reflect.ValueOf(models.OutlierTreatmentMethodAsExtremeValues)},
		{"OutlierTreatmentMethod", "asIs", "OutlierTreatmentMethodAsIs", reflect.ValueOf(models.OutlierTreatmentMethodAsIs)},
		{"OutlierTreatmentMethod", "asMissingValues", "OutlierTreatmentMethodAsMissingValues", reflect.ValueOf(models.OutlierTreatmentMethodAsMissingValues)},
		{"RegressionNormalizationMethod", "cauchit", "RegressionNormalizationMethodCauchit", reflect.ValueOf(models.RegressionNormalizationMethodCauchit)},
		{"RegressionNormalizationMethod", "cloglog", "RegressionNormalizationMethodCloglog", reflect.ValueOf(models.RegressionNormalizationMethodCloglog)},
		{"RegressionNormalizationMethod", "exp", "RegressionNormalizationMethodExp", reflect.ValueOf(models.RegressionNormalizationMethodExp)},
		{"RegressionNormalizationMethod", "logit", "RegressionNormalizationMethodLogit", reflect.ValueOf(models.RegressionNormalizationMethodLogit)},
		{"RegressionNormalizationMethod", "loglog", "RegressionNormalizationMethodLoglog", reflect.ValueOf(models.RegressionNormalizationMethodLoglog)},
		{"RegressionNormalizationMethod", "none", "RegressionNormalizationMethodNone", reflect.ValueOf(models.RegressionNormalizationMethodNone)},
		{"RegressionNormalizationMethod", "probit", "RegressionNormalizationMethodProbit", reflect.ValueOf(models.RegressionNormalizationMethodProbit)},
		{"RegressionNormalizationMethod", "simplemax", "RegressionNormalizationMethodSimplemax", reflect.ValueOf(models.RegressionNormalizationMethodSimplemax)},
		{"RegressionNormalizationMethod", "softmax", "RegressionNormalizationMethodSoftmax", reflect.ValueOf(models.RegressionNormalizationMethodSoftmax)},
		{"ResultFeature", "affinity", "ResultFeatureAffinity", reflect.ValueOf(models.ResultFeatureAffinity)},
		{"ResultFeature", "antecedent", "ResultFeatureAntecedent", reflect.ValueOf(models.ResultFeatureAntecedent)},
		{"ResultFeature", "clusterAffinity", "ResultFeatureClusterAffinity", reflect.ValueOf(models.ResultFeatureClusterAffinity)},
		{"ResultFeature", "clusterId", "ResultFeatureClusterID", reflect.ValueOf(models.ResultFeatureClusterID)},
		{"ResultFeature", "confidence", "ResultFeatureConfidence", reflect.ValueOf(models.ResultFeatureConfidence)},
		{"ResultFeature", "consequent", "ResultFeatureConsequent", reflect.ValueOf(models.ResultFeatureConsequent)},
		{"ResultFeature", "decision", "ResultFeatureDecision", reflect.ValueOf(models.ResultFeatureDecision)},
		{"ResultFeature", "entityAffinity", "ResultFeatureEntityAffinity", reflect.ValueOf(models.ResultFeatureEntityAffinity)},
		{"ResultFeature", "entityId", "ResultFeatureEntityID", reflect.ValueOf(models.ResultFeatureEntityID)},
		{"ResultFeature", "leverage", "ResultFeatureLeverage", reflect.ValueOf(models.ResultFeatureLeverage)},
		{"ResultFeature", "lift", "ResultFeatureLift", reflect.ValueOf(models.ResultFeatureLift)},
		{"ResultFeature", "predictedDisplayValue", "ResultFeaturePredictedDisplayValue", reflect.ValueOf(models.ResultFeaturePredictedDisplayValue)},
		{"ResultFeature", "predictedValue", "ResultFeaturePredictedValue", reflect.ValueOf(models.ResultFeaturePredictedValue)},
		{"ResultFeature", "probability", "ResultFeatureProbability", reflect.ValueOf(models.ResultFeatureProbability)},
		{"ResultFeature", "reasonCode", "ResultFeatureReasonCode", reflect.ValueOf(models.ResultFeatureReasonCode)},
		{"ResultFeature", "residual", "ResultFeatureResidual", reflect.ValueOf(models.ResultFeatureResidual)},
		{"ResultFeature", "rule", "ResultFeatureRule", reflect.ValueOf(models.ResultFeatureRule)},
		{"ResultFeature", "ruleId", "ResultFeatureRuleID", reflect.ValueOf(models.ResultFeatureRuleID)},
		{"ResultFeature", "ruleValue", "ResultFeatureRuleValue", reflect.ValueOf(models.ResultFeatureRuleValue)},
		{"ResultFeature", "standardError", "ResultFeatureStandardError", reflect.ValueOf(models.ResultFeatureStandardError)},
		{"ResultFeature", "support", "ResultFeatureSupport", reflect.ValueOf(models.ResultFeatureSupport)},
		{"ResultFeature", "transformedValue", "ResultFeatureTransformedValue", reflect.ValueOf(models.ResultFeatureTransformedValue)},
		{"ResultFeature", "warning", "ResultFeatureWarning", reflect.ValueOf(models.ResultFeatureWarning)},
		{"RuleFeature", "affinity", "RuleFeatureSffinity", reflect.ValueOf(models.RuleFeatureSffinity)},
		{"RuleFeature", "antecedent", "RuleFeatureAntecedent", reflect.ValueOf(models.RuleFeatureAntecedent)},
		{"RuleFeature", "confidence", "RuleFeatureConfidence", reflect.ValueOf(models.RuleFeatureConfidence)},
		{"RuleFeature", "consequent", "RuleFeatureConsequent", reflect.ValueOf(models.RuleFeatureConsequent)},
		{"RuleFeature", "leverage", "RuleFeatureLeverage", reflect.ValueOf(models.RuleFeatureLeverage)},
		{"RuleFeature", "lift", "RuleFeatureLift", reflect.ValueOf(models.RuleFeatureLift)},
		{"RuleFeature", "rule", "RuleFeatureRule", reflect.ValueOf(models.RuleFeatureRule)},
		{"RuleFeature", "ruleId", "RuleFeatureRuleID", reflect.ValueOf(models.RuleFeatureRuleID)},
		{"RuleFeature", "support", "RuleFeatureSupport", reflect.ValueOf(models.RuleFeatureSupport)},
		{"SVMClassificationMethod", "OneAgainstAll", "SVMClassificationMethodOneAgainstAll", reflect.ValueOf(models.SVMClassificationMethodOneAgainstAll)},
		{"SVMClassificationMethod", "OneAgainstOne", "SVMClassificationMethodOneAgainstOne", reflect.ValueOf(models.SVMClassificationMethodOneAgainstOne)},
		{"SVMRepresentation", "Coefficients", "SVMRepresentationCoefficients", reflect.ValueOf(models.SVMRepresentationCoefficients)},
		{"SVMRepresentation", "SupportVectors", "SVMRepresentationSupportVectors", reflect.ValueOf(models.SVMRepresentationSupportVectors)},
		{"TimeAnchorType", "dateDaysSince[0]", "TimeAnchorTypedateDaysSince0", reflect.ValueOf(models.TimeAnchorTypedateDaysSince0)},
		{"TimeAnchorType", "dateDaysSince[1960]", "TimeAnchorTypedateDaysSince1960", reflect.ValueOf(models.TimeAnchorTypedateDaysSince1960)},
		{"TimeAnchorType", "dateDaysSince[1970]", "TimeAnchorTypedateDaysSince1970", reflect.ValueOf(models.TimeAnchorTypedateDaysSince1970)},
		{"TimeAnchorType", "dateDaysSince[1980]", "TimeAnchorTypedateDaysSince1980", reflect.ValueOf(models.TimeAnchorTypedateDaysSince1980)},
		{"TimeAnchorType", "dateMonthsSince[0]", "TimeAnchorTypedateMonthsSince0", reflect.ValueOf(models.TimeAnchorTypedateMonthsSince0)},
		{"TimeAnchorType", "dateMonthsSince[1960]", "TimeAnchorTypedateMonthsSince1960", reflect.ValueOf(models.TimeAnchorTypedateMonthsSince1960)},
		{"TimeAnchorType", "dateMonthsSince[1970]", "TimeAnchorTypedateMonthsSince1970", reflect.ValueOf(models.TimeAnchorTypedateMonthsSince1970)},
		{"TimeAnchorType", "dateMonthsSince[1980]", "TimeAnchorTypedateMonthsSince1980", reflect.ValueOf(models.TimeAnchorTypedateMonthsSince1980)},
		{"TimeAnchorType", "dateTimeMillisecondsSince[0]", "TimeAnchorTypedateTimeMillisecondsSince0", reflect.ValueOf(models.TimeAnchorTypedateTimeMillisecondsSince0)},
		{"TimeAnchorType", "dateTimeMillisecondsSince[1960]", "TimeAnchorTypedateTimeMillisecondsSince1960", reflect.ValueOf(models.TimeAnchorTypedateTimeMillisecondsSince1960)},
		{"TimeAnchorType", "dateTimeMillisecondsSince[1970]", "TimeAnchorTypedateTimeMillisecondsSince1970", reflect.ValueOf(models.TimeAnchorTypedateTimeMillisecondsSince1970)},
		{"TimeAnchorType", "dateTimeMillisecondsSince[1980]", "TimeAnchorTypedateTimeMillisecondsSince1980", reflect.ValueOf(models.TimeAnchorTypedateTimeMillisecondsSince1980)},
		{"TimeAnchorType", "dateTimeSecondsSince[0]", "TimeAnchorTypedateTimeSecondsSince0", reflect.ValueOf(models.TimeAnchorTypedateTimeSecondsSince0)},
		{"TimeAnchorType", "dateTimeSecondsSince[1960]", "TimeAnchorTypedateTimeSecondsSince1960", reflect.ValueOf(models.TimeAnchorTypedateTimeSecondsSince1960)},
		{"TimeAnchorType", "dateTimeSecondsSince[1970]", "TimeAnchorTypedateTimeSecondsSince1970", reflect.ValueOf(models.TimeAnchorTypedateTimeSecondsSince1970)},
		{"TimeAnchorType", "dateTimeSecondsSince[1980]", "TimeAnchorTypedateTimeSecondsSince1980", reflect.ValueOf(models.TimeAnchorTypedateTimeSecondsSince1980)},
		{"TimeAnchorType", "dateYearsSince[0]", "TimeAnchorTypedateYearsSince0", reflect.ValueOf(models.TimeAnchorTypedateYearsSince0)},
		{"TimeExceptionType", "exclude", "TimeExceptionTypeExclude", reflect.ValueOf(models.TimeExceptionTypeExclude)},
		{"TimeExceptionType", "include", "TimeExceptionTypeInclude", reflect.ValueOf(models.TimeExceptionTypeInclude)},
		{"TimeSeriesAlgorithm", "ARIMA", "TimeSeriesAlgorithmARIMA", reflect.ValueOf(models.TimeSeriesAlgorithmARIMA)},
		{"TimeSeriesAlgorithm", "ExponentialSmoothing", "TimeSeriesAlgorithmExponentialSmoothing", reflect.ValueOf(models.TimeSeriesAlgorithmExponentialSmoothing)},
		{"TimeSeriesAlgorithm", "SeasonalTrendDecomposition", "TimeSeriesAlgorithmSeasonalTrendDecomposition", reflect.ValueOf(models.TimeSeriesAlgorithmSeasonalTrendDecomposition)},
		{"TimeSeriesAlgorithm", "SpectralAnalysis", "TimeSeriesAlgorithmSpectralAnalysis", reflect.ValueOf(models.TimeSeriesAlgorithmSpectralAnalysis)},
		{"TimeSeriesUsage", "logical", "TimeSeriesUsageLogical", reflect.ValueOf(models.TimeSeriesUsageLogical)},
		{"TimeSeriesUsage", "original", "TimeSeriesUsageOriginal", reflect.ValueOf(models.TimeSeriesUsageOriginal)},
		{"TimeSeriesUsage", "prediction", "TimeSeriesUsagePrediction", reflect.ValueOf(models.TimeSeriesUsagePrediction)},
		{"ValidTimeSpec", "excludeFromTo", "ValidTimeSpecExcludeFromTo", reflect.ValueOf(models.ValidTimeSpecExcludeFromTo)},
		{"ValidTimeSpec", "excludeSet", "ValidTimeSpecExcludeSet", reflect.ValueOf(models.ValidTimeSpecExcludeSet)},
		{"ValidTimeSpec", "includeAll", "ValidTimeSpecIncludeAll", reflect.ValueOf(models.ValidTimeSpecIncludeAll)},
		{"ValidTimeSpec", "includeFromTo", "ValidTimeSpecIncludeFromTo", reflect.ValueOf(models.ValidTimeSpecIncludeFromTo)},
		{"ValidTimeSpec", "includeSet", "ValidTimeSpecIncludeSet", reflect.ValueOf(models.ValidTimeSpecIncludeSet)},
		{"AggregateFunctionType", "average", "AggregateFunctionTypeAverage", reflect.ValueOf(models.AggregateFunctionTypeAverage)},
		{"AggregateFunctionType", "count", "AggregateFunctionTypeCount", reflect.ValueOf(models.AggregateFunctionTypeCount)},
		{"AggregateFunctionType", "max", "AggregateFunctionTypeMax", reflect.ValueOf(models.AggregateFunctionTypeMax)},
		{"AggregateFunctionType", "min", "AggregateFunctionTypeMin", reflect.ValueOf(models.AggregateFunctionTypeMin)},
		{"AggregateFunctionType", "multiset", "AggregateFunctionTypeMultiset", reflect.ValueOf(models.AggregateFunctionTypeMultiset)},
		{"AggregateFunctionType", "sum", "AggregateFunctionTypeSum", reflect.ValueOf(models.AggregateFunctionTypeSum)},
		{"AnovaRowType", "Error", "AnovaRowTypeError", reflect.ValueOf(models.AnovaRowTypeError)},
		{"AnovaRowType", "Model", "AnovaRowTypeModel", reflect.ValueOf(models.AnovaRowTypeModel)},
		{"AnovaRowType", "Total", "AnovaRowTypeTotal", reflect.ValueOf(models.AnovaRowTypeTotal)},
		{"CompoundPredicateOperator", "and", "CompoundPredicateOperatorAnd", reflect.ValueOf(models.CompoundPredicateOperatorAnd)},
		{"CompoundPredicateOperator", "or", "CompoundPredicateOperatorOr", reflect.ValueOf(models.CompoundPredicateOperatorOr)},
		{"CompoundPredicateOperator", "surrogate", "CompoundPredicateOperatorSurrogate", reflect.ValueOf(models.CompoundPredicateOperatorSurrogate)},
		{"CompoundPredicateOperator", "xor", "CompoundPredicateOperatorXor", reflect.ValueOf(models.CompoundPredicateOperatorXor)},
		{"IntervalType", "closedClosed", "IntervalTypeClosedClosed", reflect.ValueOf(models.IntervalTypeClosedClosed)},
		{"IntervalType", "closedOpen", "IntervalTypeClosedOpen", reflect.ValueOf(models.IntervalTypeClosedOpen)},
		{"IntervalType", "openClosed", "IntervalTypeOpenClosed", reflect.ValueOf(models.IntervalTypeOpenClosed)},
		{"IntervalType", "openOpen", "IntervalTypeOpenOpen", reflect.ValueOf(models.IntervalTypeOpenOpen)},
		{"RankOrder", "ascending", "RankOrderAscending", reflect.ValueOf(models.RankOrderAscending)},
		{"RankOrder", "descending", "RankOrderDescending", reflect.ValueOf(models.RankOrderDescending)},
		{"RankBasis", "affinity", "RankBasisAffinity", reflect.ValueOf(models.RankBasisAffinity)},
		{"RankBasis", "confidence", "RankBasisConfidence", reflect.ValueOf(models.RankBasisConfidence)},
		{"RankBasis", "leverage", "RankBasisLeverage", reflect.ValueOf(models.RankBasisLeverage)},
		{"RankBasis", "lift", "RankBasisLift", reflect.ValueOf(models.RankBasisLift)},
		{"RankBasis", "support", "RankBasisSupport", reflect.ValueOf(models.RankBasisSupport)},
		{"OutputFieldAlgorithm", "exclusiveRecommendation", "OutputFieldAlgorithmExclusiveRecommendation", reflect.ValueOf(models.OutputFieldAlgorithmExclusiveRecommendation)},
		{"OutputFieldAlgorithm", "recommendation", "OutputFieldAlgorithmRecommendation", reflect.ValueOf(models.OutputFieldAlgorithmRecommendation)},
		{"OutputFieldAlgorithm", "ruleAssociation", "OutputFieldAlgorithmRuleAssociation", reflect.ValueOf(models.OutputFieldAlgorithmRuleAssociation)},
		{"SimplePredicateOperator", "equal", "SimplePredicateOperatorEqual", reflect.ValueOf(models.SimplePredicateOperatorEqual)},
		{"SimplePredicateOperator", "greaterOrEqual", "SimplePredicateOperatorGreaterOrEqual", reflect.ValueOf(models.SimplePredicateOperatorGreaterOrEqual)},
		{"SimplePredicateOperator", "greaterThan", "SimplePredicateOperatorGreaterThan", reflect.ValueOf(models.SimplePredicateOperatorGreaterThan)},
		{"SimplePredicateOperator", "isMissing", "SimplePredicateOperatorIsMissing", reflect.ValueOf(models.SimplePredicateOperatorIsMissing)},
		{"SimplePredicateOperator", "isNotMissing", "SimplePredicateOperatorIsNotMissing", reflect.ValueOf(models.SimplePredicateOperatorIsNotMissing)},
		{"SimplePredicateOperator", "lessOrEqual", "SimplePredicateOperatorLessOrEqual", reflect.ValueOf(models.SimplePredicateOperatorLessOrEqual)},
		{"SimplePredicateOperator", "lessThan", "SimplePredicateOperatorLessThan", reflect.ValueOf(models.SimplePredicateOperatorLessThan)},
		{"SimplePredicateOperator", "notEqual", "SimplePredicateOperatorNotEqual", reflect.ValueOf(models.SimplePredicateOperatorNotEqual)},
		{"SimpleSetPredicateOperator", "isIn", "SimpleSetPredicateOperatorIsIn", reflect.ValueOf(models.SimpleSetPredicateOperatorIsIn)},
		{"SimpleSetPredicateOperator", "isNotIn", "SimpleSetPredicateOperatorIsNotIn", reflect.ValueOf(models.SimpleSetPredicateOperatorIsNotIn)},
		{"CastIntegerType", "ceiling", "CastIntegerTypeCeiling", reflect.ValueOf(models.CastIntegerTypeCeiling)},
		{"CastIntegerType", "floor", "CastIntegerTypeFloor", reflect.ValueOf(models.CastIntegerTypeFloor)},
		{"CastIntegerType", "round", "CastIntegerTypeRound", reflect.ValueOf(models.CastIntegerTypeRound)},
		{"TreeModelSplitCharacteristic", "binarySplit", "TreeModelSplitCharacteristicBinarySplit", reflect.ValueOf(models.TreeModelSplitCharacteristicBinarySplit)},
		{"TreeModelSplitCharacteristic", "multiSplit", "TreeModelSplitCharacteristicMultiSplit", reflect.ValueOf(models.TreeModelSplitCharacteristicMultiSplit)},
		{"ValueValid", "invalid", "ValueValidInvalid", reflect.ValueOf(models.ValueValidInvalid)},
		{"ValueValid", "missing", "ValueValidMissing", reflect.ValueOf(models.ValueValidMissing)},
		{"ValueValid", "valid", "ValueValidValid", reflect.ValueOf(models.ValueValidValid)},
		{"ArrayTypeType", "int", "ArrayTypeTypeInt", reflect.ValueOf(models.ArrayTypeTypeInt)},
		{"ArrayTypeType", "real", "ArrayTypeTypeReal", reflect.ValueOf(models.ArrayTypeTypeReal)},
		{"ArrayTypeType", "string", "ArrayTypeTypeString", reflect.ValueOf(models.ArrayTypeTypeString)},
	}
}
