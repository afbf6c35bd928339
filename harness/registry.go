package main

// Written by tools/make_table.py.

import (
	"reflect"

	"github.com/flukeish/pmml/models"
)

var modelTypes = map[string]reflect.Type{
	"ARDSquaredExponentialKernel": reflect.TypeOf(models.ARDSquaredExponentialKernel{}),
	"AbsoluteExponentialKernel":   reflect.TypeOf(models.AbsoluteExponentialKernel{}),
	"Aggregate":                   reflect.TypeOf(models.Aggregate{}),
	"Alternate":                   reflect.TypeOf(models.Alternate{}),
	"Annotation":                  reflect.TypeOf(models.Annotation{}),
	"Anova":                       reflect.TypeOf(models.Anova{}),
	"AnovaRow":                    reflect.TypeOf(models.AnovaRow{}),
	"AnyDistribution":             reflect.TypeOf(models.AnyDistribution{}),
	"Application":                 reflect.TypeOf(models.Application{}),
	"Apply":                       reflect.TypeOf(models.Apply{}),
	"AssociationModel":            reflect.TypeOf(models.AssociationModel{}),
	"AssociationRule":             reflect.TypeOf(models.AssociationRule{}),
	"Attribute":                   reflect.TypeOf(models.Attribute{}),
	"BaseCumHazardTables":         reflect.TypeOf(models.BaseCumHazardTables{}),
	"BaselineCell":                reflect.TypeOf(models.BaselineCell{}),
	"BaselineModel":               reflect.TypeOf(models.BaselineModel{}),
	"BaselineStratum":             reflect.TypeOf(models.BaselineStratum{}),
	"BayesianNetworkModel":        reflect.TypeOf(models.BayesianNetworkModel{}),
	"BlockIndicator":              reflect.TypeOf(models.BlockIndicator{}),
	"BoundaryValueMeans":          reflect.TypeOf(models.BoundaryValueMeans{}),
	"BoundaryValues":              reflect.TypeOf(models.BoundaryValues{}),
	"CategoricalPredictor":        reflect.TypeOf(models.CategoricalPredictor{}),
	"ChildParent":                 reflect.TypeOf(models.ChildParent{}),
	"CompoundPredicate":           reflect.TypeOf(models.CompoundPredicate{}),
	"Constant":                    reflect.TypeOf(models.Constant{}),
	"ContStats":                   reflect.TypeOf(models.ContStats{}),
	"Counts":                      reflect.TypeOf(models.Counts{}),
	"DataDictionary":              reflect.TypeOf(models.DataDictionary{}),
	"DataField":                   reflect.TypeOf(models.DataField{}),
	"DefineFunction":              reflect.TypeOf(models.DefineFunction{}),
	"DerivedField":                reflect.TypeOf(models.DerivedField{}),
	"DiscrStats":                  reflect.TypeOf(models.DiscrStats{}),
	"Extension":                   reflect.TypeOf(models.Extension{}),
	"FieldColumnPair":             reflect.TypeOf(models.FieldColumnPair{}),
	"FieldRef":                    reflect.TypeOf(models.FieldRef{}),
	"FieldValueCount":             reflect.TypeOf(models.FieldValueCount{}),
	"GaussianDistribution":        reflect.TypeOf(models.GaussianDistribution{}),
	"Header":                      reflect.TypeOf(models.Header{}),
	"InlineTable":                 reflect.TypeOf(models.InlineTable{}),
	"Interval":                    reflect.TypeOf(models.Interval{}),
	"Lambda":                      reflect.TypeOf(models.Lambda{}),
	"LocalTransformations":        reflect.TypeOf(models.LocalTransformations{}),
	"MapValues":                   reflect.TypeOf(models.MapValues{}),
	"MiningField":                 reflect.TypeOf(models.MiningField{}),
	"MiningModel":                 reflect.TypeOf(models.MiningModel{}),
	"MiningSchema":                reflect.TypeOf(models.MiningSchema{}),
	"ModelExplanation":            reflect.TypeOf(models.ModelExplanation{}),
	"ModelStats":                  reflect.TypeOf(models.ModelStats{}),
	"ModelVerification":           reflect.TypeOf(models.ModelVerification{}),
	"MultivariateStats":           reflect.TypeOf(models.MultivariateStats{}),
	"Node":                        reflect.TypeOf(models.Node{}),
	"NumericInfo":                 reflect.TypeOf(models.NumericInfo{}),
	"NumericPredictor":            reflect.TypeOf(models.NumericPredictor{}),
	"Output":                      reflect.TypeOf(models.Output{}),
	"OutputField":                 reflect.TypeOf(models.OutputField{}),
	"PMML":                        reflect.TypeOf(models.PMML{}),
	"Quantile":                    reflect.TypeOf(models.Quantile{}),
	"RegressionModel":             reflect.TypeOf(models.RegressionModel{}),
	"RegressionTable":             reflect.TypeOf(models.RegressionTable{}),
	"ScoreDistribution":           reflect.TypeOf(models.ScoreDistribution{}),
	"Segment":                     reflect.TypeOf(models.Segment{}),
	"Segmentation":                reflect.TypeOf(models.Segmentation{}),
	"SimplePredicate":             reflect.TypeOf(models.SimplePredicate{}),
	"SimpleSetPredicate":          reflect.TypeOf(models.SimpleSetPredicate{}),
	"Target":                      reflect.TypeOf(models.Target{}),
	"Targets":                     reflect.TypeOf(models.Targets{}),
	"Taxonomy":                    reflect.TypeOf(models.Taxonomy{}),
	"TransformationDictionary":    reflect.TypeOf(models.TransformationDictionary{}),
	"TreeModel":                   reflect.TypeOf(models.TreeModel{}),
	"UnivariateStats":             reflect.TypeOf(models.UnivariateStats{}),
	"Value":                       reflect.TypeOf(models.Value{}),
	"VerificationField":           reflect.TypeOf(models.VerificationField{}),
	"VerificationFields":          reflect.TypeOf(models.VerificationFields{}),
}
