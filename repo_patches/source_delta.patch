From 2f09fa5995c3b82407251a2b4c6ecbeceffb617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 01/51] fix: skip unknown child elements in hand-written XML
 decoders

An element a decoder does not handle (an Extension in PMML, Segment or
InlineTable, or any foreign element) was left unconsumed, so its end tag ended
the enclosing element early and a valid document failed to decode or lost the
children that follow.
---
 models/elements.go | 60 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..7e19ff7 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,8 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +408,11 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +966,11 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1268,8 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -1771,6 +1785,11 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1911,11 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2424,6 +2448,15 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
+			} else if err = decoder.Skip(); err != nil {
+				return err
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3451,8 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -3763,6 +3798,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "Header":
 				err = decoder.DecodeElement(&x.Header, &tok)
 				if err != nil {
@@ -3791,6 +3833,8 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -4538,6 +4582,22 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
+			err = decoder.Skip()
+			if err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From a951599d23f9d4dae6a07f8a619ab0c4402c8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 02/51] fix: read Apply's invalidValueTreatment attribute

Apply looked for an attribute called returnInvalid, so the declared treatment
was dropped.
---
 models/elements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 7e19ff7..4339473 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -339,7 +339,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -359,7 +359,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
-- 
2.43.0


From e222e7aa0c0094961306fa5f8dae8ee568ddb98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 03/51] fix: correct attribute names that never matched the
 schema

OutputField optype, AssociationModel maxNumberOfItemsPerTA, NumericInfo
standardDeviation, BaselineCell time, CategoricalPredictor name and Value
property were decoded from names the schema does not have and stayed empty.
---
 models/elements.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 4339473..3fea8c2 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -471,7 +471,7 @@ type AssociationModel struct {
 	FunctionName          MiningFunction       `xml:"functionName,attr"`
 	IsScorable            bool                 `xml:"isScorable,attr"`
 	LengthLimit           int                  `xml:"lengthLimit,attr"`
-	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsTA,attr"`
+	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsPerTA,attr"`
 	MinimumConfidence     float64              `xml:"minimumConfidence,attr"`
 	MinimumSupport        float64              `xml:"minimumSupport,attr"`
 	ModelName             string               `xml:"modelName,attr"`
@@ -576,7 +576,7 @@ type BaseCumHazardTables struct {
 */
 type BaselineCell struct {
 	CumHazard  float64     `xml:"cumHazard,attr"`
-	Time       float64     `xml:"time"`
+	Time       float64     `xml:"time,attr"`
 	Extensions []Extension `xml:"Extension"`
 }
 
@@ -815,7 +815,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -3541,7 +3541,7 @@ type NumericInfo struct {
 	Mean               Number `xml:"mean,attr"`
 	Median             Number `xml:"median,attr"`
 	Minimum            Number `xml:"minimum,attr"`
-	StandardDeviation  Number `xml:"standardDeviation"`
+	StandardDeviation  Number `xml:"standardDeviation,attr"`
 
 	Extensions []Extension `xml:"Extension"`
 	Quantiles  []Quantile  `xml:"Quantile"`
@@ -3655,7 +3655,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
@@ -5774,7 +5774,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From 100eec153cbd7eac9504651ad1d96f8d9476f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 04/51] fix: decode Constant and Array text as character data

Their text was kept as raw XML, so entities stayed escaped and comments or
CDATA markers became part of the value.
---
 models/complexTypes.go | 2 +-
 models/elements.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..c8091b2 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -33,7 +33,7 @@ type ArrayType struct {
 	N    *int          `xml:"n,attr"`
 	Type ArrayTypeType `xml:"type,attr"`
 
-	RawValue string `xml:",innerxml"`
+	RawValue string `xml:",chardata"`
 
 	s []string
 	i []int64
diff --git a/models/elements.go b/models/elements.go
index 3fea8c2..108bc47 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1350,7 +1350,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From 45247e549897fd054e7f597bfbcef8dbdb0f95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/51] fix: split arrays by the PMML rules instead of as a
 shell command

A shell tokenizer stopped at ; & | < > and rejected or rewrote items with
single quotes, backslashes, backticks or parentheses, so arrays lost items
without an error.
---
 models/complexTypes.go | 51 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index c8091b2..e319984 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -2,8 +2,8 @@ package models
 
 import (
 	"strconv"
+	"strings"
 
-	"github.com/mattn/go-shellwords"
 	"github.com/pkg/errors"
 )
 
@@ -40,6 +40,49 @@ type ArrayType struct {
 	f []float64
 }
 
+// splitArray splits the text of an array into its items. Items are separated
+// by whitespace; an item in double quotes may contain whitespace, and a quote
+// inside an item is written as \".
+func splitArray(text string) ([]string, error) {
+	items := []string{}
+
+	var item strings.Builder
+	inItem, inQuotes := false, false
+
+	for i := 0; i < len(text); i++ {
+		c := text[i]
+
+		switch {
+		case c == '\\' && i+1 < len(text) && text[i+1] == '"':
+			item.WriteByte('"')
+			inItem = true
+			i++
+		case c == '"':
+			inItem = true
+			inQuotes = !inQuotes
+		case !inQuotes && (c == ' ' || c == '\t' || c == '\n' || c == '\r'):
+			if inItem {
+				items = append(items, item.String())
+				item.Reset()
+				inItem = false
+			}
+		default:
+			item.WriteByte(c)
+			inItem = true
+		}
+	}
+
+	if inQuotes {
+		return nil, errors.New("unbalanced quote in array")
+	}
+
+	if inItem {
+		items = append(items, item.String())
+	}
+
+	return items, nil
+}
+
 func (at *ArrayType) Strings() ([]string, error) {
 	if at.Type != ArrayTypeTypeString {
 		return nil, errors.New("not a string array")
@@ -50,7 +93,7 @@ func (at *ArrayType) Strings() ([]string, error) {
 	}
 
 	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
+	at.s, err = splitArray(at.RawValue)
 	return at.s, err
 }
 
@@ -63,7 +106,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return at.i, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
@@ -93,7 +136,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return at.f, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5e8b21717cfed62f08a63c3cde4cc75d63606e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 06/51] fix: default TreeModel missingValuePenalty to 1.0 and
 isScorable to true

Without the attribute the penalty decoded to 0, so every prediction that went
through a default child had confidence and probability 0 and lost its class.
---
 models/elements.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 108bc47..33b5ac9 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5606,6 +5606,16 @@ type TreeModel struct {
 
 func (*TreeModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type treeModel TreeModel
+
+	x.IsScorable = true
+	x.MissingValuePenalty = 1.0
+
+	return decoder.DecodeElement((*treeModel)(x), &start)
+}
+
 /*
   <xs:element name="Trend_ExpoSmooth">
     <xs:complexType>
-- 
2.43.0


From afa5ef8edbdc55a377a433a5b896afef7d75d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 07/51] fix: default isScorable to true for the other modelled
 kinds

The schema default is true (two of the structs even say so in a default tag
that nothing read), but an omitted attribute decoded to false.
---
 models/elements.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 33b5ac9..1c03249 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -492,6 +492,15 @@ type AssociationModel struct {
 
 func (*AssociationModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *AssociationModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type associationModel AssociationModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*associationModel)(x), &start)
+}
+
 /*
   <xs:element name="AssociationRule">
     <xs:complexType>
@@ -619,6 +628,15 @@ type BaselineModel struct {
 
 func (*BaselineModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *BaselineModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type baselineModel BaselineModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*baselineModel)(x), &start)
+}
+
 /*
   <xs:element name="BaselineStratum">
     <xs:complexType>
@@ -743,6 +761,15 @@ type BayesianNetworkModel struct {
 
 func (*BayesianNetworkModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *BayesianNetworkModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type bayesianNetworkModel BayesianNetworkModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*bayesianNetworkModel)(x), &start)
+}
+
 /*
   <xs:element name="BayesianNetworkNodes">
     <xs:complexType>
@@ -2993,6 +3020,15 @@ type MiningModel struct {
 
 func (*MiningModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *MiningModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type miningModel MiningModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*miningModel)(x), &start)
+}
+
 /*
   <xs:element name="MiningSchema">
     <xs:complexType>
@@ -4312,6 +4348,15 @@ type RegressionModel struct {
 
 func (*RegressionModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *RegressionModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type regressionModel RegressionModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*regressionModel)(x), &start)
+}
+
 /*
   <xs:element name="RegressionTable">
     <xs:complexType>
-- 
2.43.0


From c0099ea88706258a8dc45645b71ecf27a908e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/51] fix: apply the exponent of numeric predictors

The exponent attribute was decoded (to 0 when absent, the schema default is 1)
and never used, so polynomial terms were scored as linear ones.
---
 evaluation/regression.go | 4 ++--
 models/elements.go       | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..ef06502 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -108,7 +108,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 		if !ok {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
-		indVar := term.Float64()
+		indVar := math.Pow(term.Float64(), float64(np.Exponent))
 		coeff := np.Coefficient
 		y += coeff * indVar
 	}
@@ -177,7 +177,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			if !ok {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
-			indVar := term.Float64()
+			indVar := math.Pow(term.Float64(), float64(np.Exponent))
 			coeff := np.Coefficient
 			y[i] += coeff * indVar
 		}
diff --git a/models/elements.go b/models/elements.go
index 1c03249..ef995ac 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -3603,6 +3603,15 @@ type NumericPredictor struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *NumericPredictor) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type numericPredictor NumericPredictor
+
+	x.Exponent = 1
+
+	return decoder.DecodeElement((*numericPredictor)(x), &start)
+}
+
 /*
   <xs:element name="OptimumLiftGraph">
     <xs:complexType>
-- 
2.43.0


From 0cc9ddf5b0238593bd93a4bf2881dcb87c183df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 09/51] fix: score the categorical predictors of regression
 tables

CategoricalPredictor and PredictorTerm elements were dropped while decoding, so
such models were scored without those terms. Categorical predictors are now
added and interaction terms, which are not supported, are reported.
---
 evaluation/regression.go | 30 ++++++++++++++++++++++++++++++
 models/elements.go       |  3 +++
 2 files changed, 33 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index ef06502..7837f26 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -78,6 +78,24 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 	return 0.0, fmt.Errorf("unrecognized normalization method: %v", m.model.RegressionNormalizationMethod)
 }
 
+// categoricalTerms adds the coefficients of the categorical predictors whose
+// value the row has; a missing value matches none of them.
+func categoricalTerms(rtbl models.RegressionTable, input DataRow) (float64, error) {
+	if len(rtbl.PredictorTerms) > 0 {
+		return 0.0, fmt.Errorf("unsupported regression term PredictorTerm")
+	}
+
+	y := 0.0
+	for _, cp := range rtbl.CategoricalPredictors {
+		val, ok := input[string(cp.Name)]
+		if ok && val.Raw() != nil && val.String() == cp.Value {
+			y += float64(cp.Coefficient)
+		}
+	}
+
+	return y, nil
+}
+
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
@@ -113,6 +131,12 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 		y += coeff * indVar
 	}
 
+	categorical, err := categoricalTerms(rtbl, input)
+	if err != nil {
+		return nil, err
+	}
+	y += categorical
+
 	pred, err := m.normalize(y)
 	if err != nil {
 		return out, err
@@ -181,6 +205,12 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			coeff := np.Coefficient
 			y[i] += coeff * indVar
 		}
+
+		categorical, err := categoricalTerms(rtbl, input)
+		if err != nil {
+			return nil, err
+		}
+		y[i] += categorical
 	}
 
 	for i, target := range targets {
diff --git a/models/elements.go b/models/elements.go
index ef995ac..a9caf8d 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4385,6 +4385,9 @@ type RegressionTable struct {
 	TargetCategory   string             `xml:"targetCategory,attr"`
 	NumericPredictor []NumericPredictor `xml:"NumericPredictor"`
 	Extensions       []Extension        `xml:"Extension"`
+
+	CategoricalPredictors []CategoricalPredictor `xml:"CategoricalPredictor"`
+	PredictorTerms        []PredictorTerm        `xml:"PredictorTerm"`
 }
 
 /*
-- 
2.43.0


From 24edfa0f07dabcd22e266955c59132a48ca3f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 10/51] fix: apply the link to the whole linear score in binary
 classification

Each input was passed through the link on its own and the results were added to
the intercept, ignoring the coefficients, which is right only for a single
predictor with coefficient 1 and intercept 0. The second class is the
complement of the first, whatever its table contains.
---
 evaluation/regression.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 7837f26..aaaac5b 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -149,22 +149,32 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
+	if len(m.model.RegressionTables) != 2 {
+		return out, fmt.Errorf("binary classification expects exactly 2 RegressionTables, found: %d", len(m.model.RegressionTables))
+	}
+
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
+	for i, rtbl := range m.model.RegressionTables {
 		pred := rtbl.Intercept
 
-		if len(rtbl.NumericPredictor) > 0 {
+		if i == 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
 				if !ok {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+				pred += np.Coefficient * math.Pow(term.Float64(), float64(np.Exponent))
+			}
+
+			categorical, err := categoricalTerms(rtbl, input)
+			if err != nil {
+				return nil, err
+			}
+
+			pred, err = m.normalize(pred + categorical)
+			if err != nil {
+				return out, err
 			}
 		} else {
 			pred = finalPred
-- 
2.43.0


From 252cdf3902805c6c63da54e197b1640dab2d00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/51] fix: score two-class softmax and simplemax models with
 their formula

With two output fields softmax fell into the logistic path, which ignores the
second table's score, and simplemax was refused.
---
 evaluation/regression.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index aaaac5b..7c09440 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -99,7 +99,9 @@ func categoricalTerms(rtbl models.RegressionTable, input DataRow) (float64, erro
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
-	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
+	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax {
 		return m.EvaluateBinaryClassification(input)
 	} else if m.model.FunctionName == "classification" {
 		return m.EvaluateMulticlassClassification(input)
-- 
2.43.0


From 5719db40b8c64fe1f3b45be32c9a279ec4259f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 12/51] fix: keep softmax finite for large scores

exp of a score above about 709 is infinite, which made the probabilities NaN.
---
 evaluation/regression.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 7c09440..2bf7a3d 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -228,11 +228,15 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	for i, target := range targets {
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
+			yMax := y[0]
+			for _, yVal := range y {
+				yMax = math.Max(yMax, yVal)
+			}
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal)
+				s += math.Exp(yVal - yMax)
 			}
-			out[target] = NewValue(math.Exp(y[i]) / s)
+			out[target] = NewValue(math.Exp(y[i]-yMax) / s)
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
-- 
2.43.0


From 8f1d91dfc64d691278f7bcd4b5f6166859369c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 13/51] fix: score regression models without a normalization
 method

none, the schema default, was reported as unrecognized, so a plain linear
regression could not be scored.
---
 evaluation/regression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 2bf7a3d..6b7d76d 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -64,6 +64,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case models.RegressionNormalizationMethodNone, "":
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From a05c06f96ddd8e91560b4629f2c01d93afa0ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 14/51] fix: report a valueless regression input as missing

A field present in the row without a value was scored as 0.
---
 evaluation/regression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 6b7d76d..03ec116 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -127,7 +127,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
-		if !ok {
+		if !ok || term.Raw() == nil {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
 		indVar := math.Pow(term.Float64(), float64(np.Exponent))
@@ -165,7 +165,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 		if i == 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
-				if !ok {
+				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
 				pred += np.Coefficient * math.Pow(term.Float64(), float64(np.Exponent))
@@ -212,7 +212,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
-			if !ok {
+			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
 			indVar := math.Pow(term.Float64(), float64(np.Exponent))
-- 
2.43.0


From b58218ba4d8169e4be81b515d09c640c81c20dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 15/51] fix: compute the local transformations of regression
 models

They were never evaluated, so a predictor on a derived field was reported as
missing or read a stale input of the same name.
---
 evaluation/regression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 03ec116..8d790a3 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -99,6 +99,11 @@ func categoricalTerms(rtbl models.RegressionTable, input DataRow) (float64, erro
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 &&
-- 
2.43.0


From e0342645e2ccc1771da2b587f4c9fabf35005f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 16/51] fix: let RegressionModel.Validate accept what Evaluate
 supports

It refused regression models and simplemax classification although both are
scored, and its classification output rule was applied to regressions.
---
 evaluation/regression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 8d790a3..2f9e400 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -39,12 +39,17 @@ func (m *RegressionModel) Validate() error {
 	if m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodNone &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodLogit &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodExp &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCloglog &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCauchit {
 		return fmt.Errorf("unsupported regression normalization method %s", m.model.RegressionNormalizationMethod)
 	}
 
+	if m.model.FunctionName == models.MiningFunctionRegression {
+		return nil
+	}
+
 	if m.model.FunctionName != models.MiningFunctionClassification {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
-- 
2.43.0


From 9b3baa186ebb92ac9c9685c7be95a2920ecb79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 17/51] fix: do not write into the caller's row

Derived fields, replaced missing values and chain outputs were stored in the
row passed to Evaluate, so scoring a row changed it (and a later evaluation of
the same row, or of a row shared between goroutines).
---
 evaluation/input.go        |  4 ++++
 evaluation/mining.go       |  5 +++++
 evaluation/miningschema.go | 10 ++++++++++
 3 files changed, 19 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..c058a47 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,10 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	if len(lt.DerivedFields) > 0 {
+		in = in.copy()
+	}
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..fe1ff69 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -132,6 +132,7 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
+	input = input.copy()
 	for _, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
@@ -211,6 +212,10 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
+	if len(m.defaultValues) > 0 {
+		input = input.copy()
+	}
+
 	for fld, defaultValue := range m.defaultValues {
 		inputVal, ok := input[fld]
 		if !ok || inputVal.Raw() == nil {
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..64c252e 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -111,3 +111,13 @@ func (v Value) String() string {
 }
 
 type DataRow map[string]Value
+
+// copy lets a model add fields without changing the caller's row.
+func (r DataRow) copy() DataRow {
+	c := make(DataRow, len(r))
+	for k, v := range r {
+		c[k] = v
+	}
+
+	return c
+}
-- 
2.43.0


From c327bddcffd4e64c5b9fbe3de6a2461b2d68c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 18/51] fix: replace missing values in tree and regression
 models too

missingValueReplacement was honoured only by mining models; a tree or a
regression scored the field as missing.
---
 evaluation/input.go  | 29 +++++++++++++++++++++++++++++
 evaluation/mining.go | 26 --------------------------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index c058a47..fc8ddc4 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,8 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	in = replaceMissingValues(in, ms)
+
 	if len(lt.DerivedFields) > 0 {
 		in = in.copy()
 	}
@@ -209,6 +211,33 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 	return in, nil
 }
 
+// replaceMissingValues gives the fields the row has no value for the
+// replacement their mining field declares.
+func replaceMissingValues(in DataRow, ms *models.MiningSchema) DataRow {
+	if ms == nil {
+		return in
+	}
+
+	copied := false
+	for i := range ms.MiningFields {
+		f := &ms.MiningFields[i]
+		if f.MissingValueReplacement == nil {
+			continue
+		}
+
+		inputVal, ok := in[string(f.Name)]
+		if !ok || inputVal.Raw() == nil {
+			if !copied {
+				in = in.copy()
+				copied = true
+			}
+			in[string(f.Name)] = NewValue(*f.MissingValueReplacement)
+		}
+	}
+
+	return in
+}
+
 func validate(in DataRow, ms *models.MiningSchema) error {
 	if ms == nil {
 		return nil
diff --git a/evaluation/mining.go b/evaluation/mining.go
index fe1ff69..b45fde9 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -16,7 +16,6 @@ type MiningModel struct {
 
 	segmodels []Model
 
-	defaultValues map[string]Value
 	fieldTypes    map[models.FieldName]models.DataType
 	targetField   models.FieldName
 	outputFields  []models.OutputField
@@ -71,15 +70,10 @@ func (m *MiningModel) Compile() error {
 	m.outputFields = m.model.Output.Fields
 	m.targets = m.model.Targets.Targets
 
-	m.defaultValues = make(map[string]Value)
 	for _, f := range m.model.MiningSchema.MiningFields {
 		if f.UsageType == models.FieldUsageTypeTarget {
 			m.targetField = f.Name
 		}
-
-		if f.MissingValueReplacement != nil {
-			m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)
-		}
 	}
 
 	m.fieldTypes = make(map[models.FieldName]models.DataType)
@@ -211,21 +205,6 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 	return out, nil
 }
 
-func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
-	if len(m.defaultValues) > 0 {
-		input = input.copy()
-	}
-
-	for fld, defaultValue := range m.defaultValues {
-		inputVal, ok := input[fld]
-		if !ok || inputVal.Raw() == nil {
-			input[fld] = defaultValue
-		}
-	}
-
-	return input, nil
-}
-
 func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
 	var err error
 
@@ -237,11 +216,6 @@ func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, ErrNotCompiled
 	}
 
-	input, err = m.imputeMissingValues(input)
-	if err != nil {
-		return nil, err
-	}
-
 	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 98de3672b8a82c00a8c07726aed61b787f86e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 19/51] fix: leave the transformation dictionary alone when
 compiling

Every Compile appended the model's local transformations to the caller's
TransformationDictionary, so building models from a document changed it and
the fields of one model leaked into the models built after it.
---
 evaluation/mining.go | 11 ++++++-----
 evaluation/tree.go   |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index b45fde9..5083438 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -82,11 +82,12 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	// segments see the local transformations of the model they are part of
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField{}, m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
@@ -96,7 +97,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..1b5e89f 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -686,11 +686,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From 9d65db10cf8d35abd09cebd0b3d307cf0d3783b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 20/51] fix: compile a mining model's segments only once

A second Compile added all segment models again, which doubled sums and ran
chains twice.
---
 evaluation/mining.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 5083438..a883355 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -91,6 +91,8 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
-- 
2.43.0


From aa53d81457506c204a76a98c74d8143a1fb18410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 21/51] fix: compute the derived fields of the transformation
 dictionary

Only local transformations were evaluated; a model that used a global derived
field scored it as missing.
---
 evaluation/input.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index fc8ddc4..1492a62 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -183,23 +183,49 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 	return NewValue(nil), fmt.Errorf("unsupported transformation: %T", expr)
 }
 
+func deriveField(df models.DerivedField, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) error {
+	expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
+	if err != nil {
+		return err
+	}
+
+	if df.OpType == models.OpTypeContinuous {
+		in[df.Name] = NewValue(expr_val.Float64())
+	} else {
+		in[df.Name] = expr_val
+	}
+
+	return nil
+}
+
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
 	in = replaceMissingValues(in, ms)
 
-	if len(lt.DerivedFields) > 0 {
+	var global []models.DerivedField
+	if td != nil {
+		global = td.DerivedFields
+	}
+
+	if len(lt.DerivedFields) > 0 || len(global) > 0 {
 		in = in.copy()
 	}
 
-	for _, df := range lt.DerivedFields {
-		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
+	for _, df := range global {
+		// an enclosing model has already computed the fields it shares
+		if _, ok := in[df.Name]; ok {
+			continue
+		}
+
+		err := deriveField(df, in, dd, td, lt, ms)
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		if df.OpType == models.OpTypeContinuous {
-			in[df.Name] = NewValue(expr_val.Float64())
-		} else {
-			in[df.Name] = expr_val
+	for _, df := range lt.DerivedFields {
+		err := deriveField(df, in, dd, td, lt, ms)
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 6f281ba1b8609e937c2fca647e0cb68a064a8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 22/51] fix: keep missing operands and derived fields missing

Arithmetic on a missing field, and a continuous derived field with a missing
value, silently became numbers (0 for the missing operand), which hid the
missing value from missing-value handling.
---
 evaluation/input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 1492a62..f41be55 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -45,6 +45,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
@@ -189,7 +192,7 @@ func deriveField(df models.DerivedField, in DataRow, dd *models.DataDictionary,
 		return err
 	}
 
-	if df.OpType == models.OpTypeContinuous {
+	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 		in[df.Name] = NewValue(expr_val.Float64())
 	} else {
 		in[df.Name] = expr_val
-- 
2.43.0


From 6d6ed40a33c58636d5f15da494f162a754ef4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 23/51] fix: honour mapMissingTo and defaultValue of
 expressions

FieldRef and Apply decode the values to use for missing inputs and results but
they were ignored.
---
 evaluation/input.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index f41be55..b318391 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -166,10 +166,24 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 	return NewValue(nil), errors.New("unexpected expression")
 }
 
+// evaluatedExpression is an argument whose value is already known.
+type evaluatedExpression struct {
+	models.Expression
+	val Value
+}
+
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
+	evaluated, ok := expr.(evaluatedExpression)
+	if ok {
+		return evaluated.val, nil
+	}
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
-		return in[string(fieldRef.Field)], nil
+		val := in[string(fieldRef.Field)]
+		if val.Raw() == nil && fieldRef.MapMissingTo != nil {
+			return NewValue(*fieldRef.MapMissingTo), nil
+		}
+		return val, nil
 	}
 	constExpr, ok := expr.(*models.Constant)
 	if ok {
@@ -177,7 +191,26 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 	}
 	apply, ok := expr.(*models.Apply)
 	if ok {
-		return handleApplyExpression(apply, in, dd, td, lt, ms)
+		defaultValue := apply.DefaultValue
+		if apply.MapMissingTo != nil {
+			args := make([]models.Expression, len(apply.Expressions))
+			for i, arg := range apply.Expressions {
+				val, err := HandleExpression(arg, in, dd, td, lt, ms)
+				if err != nil {
+					return NewValue(nil), err
+				}
+				if val.Raw() == nil {
+					return NewValue(*apply.MapMissingTo), nil
+				}
+				args[i] = evaluatedExpression{val: val}
+			}
+			apply = &models.Apply{Function: apply.Function, Expressions: args}
+		}
+		val, err := handleApplyExpression(apply, in, dd, td, lt, ms)
+		if err == nil && val.Raw() == nil && defaultValue != nil {
+			return NewValue(*defaultValue), nil
+		}
+		return val, err
 	}
 	mapExpr, ok := expr.(*models.MapValues)
 	if ok {
-- 
2.43.0


From 26abfeba0857868ac91e04ffb8028f4533be83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 24/51] fix: convert every kind of value the row may hold

Int64 of a float or of numeric text was 0, Float32 of text was 0, Bool of text
was false, and an unsigned value above MaxInt64 became a negative float.
---
 evaluation/miningschema.go | 44 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 64c252e..925e74a 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -2,7 +2,9 @@ package evaluation
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
 type stringer interface {
@@ -30,6 +32,18 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if _, ok := v.val.(string); ok {
+		return float32(v.Float64())
+	}
+
+	if u, ok := v.val.(uint64); ok {
+		return float32(u)
+	}
+
+	if u, ok := v.val.(uint); ok {
+		return float32(u)
+	}
+
 	return float32(v.Int64())
 }
 
@@ -43,17 +57,30 @@ func (v Value) Float64() float64 {
 	}
 
 	if s, ok := v.val.(string); ok {
-		f, err := strconv.ParseFloat(s, 64)
+		f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
 		if err != nil {
 			return 0.0
 		}
 		return f
 	}
 
+	if u, ok := v.val.(uint64); ok {
+		return float64(u)
+	}
+
+	if u, ok := v.val.(uint); ok {
+		return float64(u)
+	}
+
 	return float64(v.Int64())
 }
 
 func (v Value) Bool() bool {
+	if s, ok := v.val.(string); ok {
+		b, err := strconv.ParseBool(strings.TrimSpace(s))
+		return err == nil && b
+	}
+
 	b, ok := v.val.(bool)
 	if !ok {
 		return false
@@ -95,6 +122,21 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if s, ok := v.val.(string); ok {
+		i, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
+		if err == nil {
+			return i
+		}
+	}
+
+	switch v.val.(type) {
+	case string, float32, float64:
+		f := v.Float64()
+		if f >= math.MinInt64 && f < math.MaxInt64 {
+			return int64(f)
+		}
+	}
+
 	return 0
 }
 
-- 
2.43.0


From 5a1957f04b61c8f41754612e0afc9e3400c68f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 25/51] fix: look values up in the columns a MapValues declares

Only columns named data:input and data:output were consulted, only one of
several input fields was compared, the last instead of the first matching row
won, and a value without a match was passed through (PMML: missing).
mapMissingTo was ignored and a default without a data type was an error.
---
 evaluation/input.go | 53 ++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index b318391..88a1841 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -2,8 +2,8 @@ package evaluation
 
 import (
 	"fmt"
-	"github.com/pkg/errors"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -126,30 +126,54 @@ func isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *m
 	return false, nil
 }
 
+// localName is the name of a table column without its namespace prefix, which
+// is how the cells of a decoded row are named.
+func localName(column string) string {
+	return column[strings.LastIndex(column, ":")+1:]
+}
+
+func rowMatches(row models.Row, columns map[string]string) bool {
+	for name, val := range columns {
+		cell, ok := row[name]
+		if !ok || cell != val {
+			return false
+		}
+	}
+
+	return true
+}
+
 func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-	columns := make(map[string]Value)
+	columns := make(map[string]string)
+	missing := false
 
 	for _, pair := range expr.FieldColumnPairs {
 		data, ok := in[pair.Field]
-		if ok {
-			columns[pair.Column] = data
+		if !ok || data.Raw() == nil {
+			missing = true
+			continue
 		}
+		columns[localName(pair.Column)] = data.String()
+	}
+
+	if missing && expr.MapMissingTo != nil {
+		return NewValue(*expr.MapMissingTo), nil
 	}
 
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			output, ok := row[localName(expr.OutputColumn)]
+			if ok && !missing && rowMatches(row, columns) {
+				return NewValue(output), nil
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
-	if ok {
-		return output, nil
-	}
-
 	if expr.DefaultValue != nil {
+		if expr.DataType == "" {
+			return NewValue(*expr.DefaultValue), nil
+		}
+
 		defaultValue, err := getRawValue(expr.DataType, *expr.DefaultValue)
 		if err != nil {
 			return NewValue(nil), err
@@ -158,12 +182,7 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
-	}
-
-	return NewValue(nil), errors.New("unexpected expression")
+	return NewValue(nil), nil
 }
 
 // evaluatedExpression is an argument whose value is already known.
-- 
2.43.0


From a94fce3d52f75debbbe34769cdbaeec5a69ba57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 26/51] fix: give no value for an if whose condition is missing

---
 evaluation/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index 88a1841..73e74a8 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -98,6 +98,10 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 			return NewValue(nil), err
 		}
 
+		if condition.Raw() == nil {
+			return NewValue(nil), nil
+		}
+
 		if condition.Bool() {
 			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
 		} else {
-- 
2.43.0


From 79e7c886c28839f77dd43c7963a8fffe04b54f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 27/51] fix: test for missing values without a constant and
 treat valueless fields as missing

---
 evaluation/tree.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 1b5e89f..0fe39ee 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -420,6 +420,11 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing ||
+			p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -519,22 +524,27 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
-		if p.Operator == models.SimplePredicateOperatorIsMissing {
+	missing := !ok || val.Raw() == nil
+
+	switch {
+	case p.Operator == models.SimplePredicateOperatorIsMissing:
+		if missing {
 			return t
 		}
-
+		return f
+	case p.Operator == models.SimplePredicateOperatorIsNotMissing:
+		if missing {
+			return f
+		}
+		return t
+	case missing:
 		return u
+	case p.RawPredicateValue == nil:
+		return f
 	}
 
 	switch p.Operator {
-	case models.SimplePredicateOperatorIsNotMissing:
-		return t
 	case models.SimplePredicateOperatorEqual:
 		if val.Raw() == p.RawPredicateValue {
 			return t
-- 
2.43.0


From a6f67cd4e82abbc699617cf1c05aea75c23c2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 28/51] fix: compare equality as values of the field's declared
 type

---
 evaluation/miningschema.go | 10 ++++++++++
 evaluation/tree.go         | 21 +++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 925e74a..5d88dbd 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -75,6 +75,16 @@ func (v Value) Float64() float64 {
 	return float64(v.Int64())
 }
 
+// floating reports whether the value is not held as an integer.
+func (v Value) floating() bool {
+	switch v.val.(type) {
+	case string, float32, float64:
+		return true
+	}
+
+	return false
+}
+
 func (v Value) Bool() bool {
 	if s, ok := v.val.(string); ok {
 		b, err := strconv.ParseBool(strings.TrimSpace(s))
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 0fe39ee..7040e31 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -517,6 +517,23 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+// equalValue compares a value to a predicate's constant as values of the
+// field's declared type, whatever type the row uses to hold it.
+func equalValue(val Value, constant interface{}) bool {
+	switch c := constant.(type) {
+	case bool:
+		return val.Bool() == c
+	case float64:
+		return val.Float64() == c
+	case int64:
+		return val.Int64() == c && (!val.floating() || val.Float64() == float64(c))
+	case string:
+		return val.String() == c
+	}
+
+	return false
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -546,11 +563,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 
 	switch p.Operator {
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if equalValue(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !equalValue(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From 0e11edd7d625b363b79957939e11db1af21376bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 29/51] fix: evaluate True and False inside compound predicates

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7040e31..e8692a5 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -654,6 +654,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From d89107941dec997939cffb4e6118c5e0a695eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 30/51] fix: evaluate set predicates

---
 evaluation/tree.go | 70 +++++++++++++++++++++++++++++++++++++++++++++-
 models/elements.go |  2 ++
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index e8692a5..4611325 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -431,6 +431,29 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		p.RawPredicateValue = pv
+	case *models.SimpleSetPredicate:
+		predicateValueType, ok := m.fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		if p.BooleanOperator != models.SimpleSetPredicateOperatorIsIn &&
+			p.BooleanOperator != models.SimpleSetPredicateOperatorIsNotIn {
+			return fmt.Errorf("unsupported set operator %s", p.BooleanOperator)
+		}
+
+		items, err := arrayItems(models.ArrayType(p.Array))
+		if err != nil {
+			return err
+		}
+
+		p.RawPredicateValues = make([]interface{}, len(items))
+		for i, item := range items {
+			p.RawPredicateValues[i], err = getRawValue(predicateValueType, item)
+			if err != nil {
+				return err
+			}
+		}
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
@@ -443,6 +466,34 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 	return nil
 }
 
+// arrayItems returns the items of an array of any type as text.
+func arrayItems(array models.ArrayType) ([]string, error) {
+	items := []string{}
+
+	switch array.Type {
+	case models.ArrayTypeTypeInt:
+		ints, err := array.Int64s()
+		if err != nil {
+			return nil, err
+		}
+		for _, i := range ints {
+			items = append(items, strconv.FormatInt(i, 10))
+		}
+	case models.ArrayTypeTypeReal:
+		floats, err := array.Float64s()
+		if err != nil {
+			return nil, err
+		}
+		for _, f := range floats {
+			items = append(items, strconv.FormatFloat(f, 'g', -1, 64))
+		}
+	default:
+		return array.Strings()
+	}
+
+	return items, nil
+}
+
 func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	n := node{
 		id:           modelNode.ID,
@@ -510,7 +561,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		}
 	case *models.SimpleSetPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
 	}
 
@@ -636,6 +687,23 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	in := false
+	for _, item := range p.RawPredicateValues {
+		if equalValue(val, item) {
+			in = true
+			break
+		}
+	}
+
+	if in == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
+		return t
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index a9caf8d..a7d1462 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4923,6 +4923,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawPredicateValues []interface{} `xml:"-"`
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


From 4a6239b490a5afba2d1a3f0165772b827b70a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 31/51] fix: reject tree nodes without a predicate

---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4611325..4b393db 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -563,6 +563,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
+	default:
+		return n, fmt.Errorf("tree node %s has no predicate", modelNode.ID)
 	}
 
 	return n, nil
-- 
2.43.0


From ccf26e7023aa48f6d46da3f23ab9e2189639d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 32/51] fix: reject unknown predicate operators

---
 evaluation/tree.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4b393db..68b8693 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -425,6 +425,14 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return nil
 		}
 
+		switch p.Operator {
+		case models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual,
+			models.SimplePredicateOperatorLessThan, models.SimplePredicateOperatorLessOrEqual,
+			models.SimplePredicateOperatorGreaterThan, models.SimplePredicateOperatorGreaterOrEqual:
+		default:
+			return fmt.Errorf("unsupported operator %s", p.Operator)
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -455,6 +463,13 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			}
 		}
 	case *models.CompoundPredicate:
+		switch p.BooleanOperator {
+		case models.CompoundPredicateOperatorAnd, models.CompoundPredicateOperatorOr,
+			models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate:
+		default:
+			return fmt.Errorf("unsupported boolean operator %s", p.BooleanOperator)
+		}
+
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
 			if err != nil {
-- 
2.43.0


From ee9da1487fd2aa58f78810e6334749d288da2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 33/51] fix: predict exactly what the chosen node declares, or
 nothing

---
 evaluation/tree.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 68b8693..d3a2ac6 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -67,9 +67,9 @@ const (
 */
 
 func pickBest(scores []scoreDist) scoreDist {
-	best := scoreDist{probability: 0.0}
+	best := scores[0]
 
-	for _, score := range scores {
+	for _, score := range scores[1:] {
 		if score.probability > best.probability {
 			best = score
 		}
@@ -97,31 +97,54 @@ func (n node) evaluate(input DataRow) ([]scoreDist, predicateResult) {
 
 var emptyScoreDist []scoreDist
 
+// outputScoreDist is the prediction of a node none of whose children applies.
 func (n node) outputScoreDist() []scoreDist {
 	if !n.leaf() && n.m.model.NoTrueChildStrategy == models.NoTrueChildStrategyReturnNullPrediction {
 		return nil
 	}
 
+	return n.ownScoreDist()
+}
+
+// ownScoreDist is the prediction the node itself declares, nil if it has none.
+func (n node) ownScoreDist() []scoreDist {
+	own := scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount}
+
+	if n.m.model.FunctionName == models.MiningFunctionRegression {
+		if n.score.value == "" {
+			return nil
+		}
+		return []scoreDist{own}
+	}
+
 	if len(n.scoreDist) > 0 {
 		return n.scoreDist
 	}
 
+	if n.score.value == "" {
+		return nil
+	}
+
 	sd := make([]scoreDist, 0, 0)
+	declared := false
 
 	if n.m.targetField != "" {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
-						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
+						sd = append(sd, own)
+						declared = true
 					} else {
 						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
 					}
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if !declared {
+		sd = append(sd, own)
 	}
 
 	return sd
@@ -843,7 +866,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 5e531f0bbb4fa3f8ae785f14cfac436755dd17e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 34/51] fix: take the first true child, else the current node,
 for lastPrediction

---
 evaluation/tree.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index d3a2ac6..18928e8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -171,29 +171,22 @@ func (n node) evaluateMissingValueStrategyNone(input DataRow) ([]scoreDist, pred
 func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
 
 		if childResult == u {
-			unknownValues = true
+			return n.ownScoreDist(), t
 		}
 
 		if childResult == t {
-			trueDist = score
+			return score, t
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	return n.outputScoreDist(), result
 }
 
-- 
2.43.0


From 0b6471e600aea19f0ac10649a2b601fae2726777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 35/51] fix: descend into the default child when a value is
 missing

---
 evaluation/tree.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 18928e8..7036724 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -193,35 +193,39 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	childScores := make(map[string][]scoreDist)
+	return n.enterDefaultChild(input)
+}
+
+// enterDefaultChild evaluates the children of a node that applies, or that is
+// the default child of one, whatever its own predicate says.
+func (n node) enterDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	unknownValues := false
-	var trueDist []scoreDist
 
 	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
-		childScores[c.id] = score
-
-		if childResult == u {
-			unknownValues = true
-		}
+		childResult := c.test(input)
 
 		if childResult == t {
-			trueDist = score
+			return c.enterDefaultChild(input)
 		}
-	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
+		if childResult == u {
+			unknownValues = true
+			break
+		}
 	}
 
 	if unknownValues {
-		defaultScores, ok := childScores[n.defaultChild]
-		if !ok {
-			return emptyScoreDist, u
+		var defaultScores []scoreDist
+
+		for _, c := range n.children {
+			if n.defaultChild != "" && c.id == n.defaultChild {
+				defaultScores, _ = c.enterDefaultChild(input)
+				break
+			}
 		}
 
 		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))
@@ -235,7 +239,7 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 		return adjustedScores, t
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist(), t
 }
 
 func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]scoreDist, predicateResult) {
-- 
2.43.0


From de41697ec9af3e545482be0bae4390f74a7c1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 36/51] fix: weigh the possible children of a node by record
 count

---
 evaluation/tree.go | 59 ++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7036724..4c1c617 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -271,46 +271,59 @@ func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
-		return n.scoreDist, result
+	if result == f || result == u {
+		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
-	totalRecordCount := 0.0
+	return n.weighChildren(input), t
+}
 
+// possibleChildren returns the children a row may belong to: the first one
+// that applies, or all but the false ones if a missing value leaves that open.
+func (n node) possibleChildren(input DataRow) (children []node, unknownValues bool) {
 	for _, c := range n.children {
-		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
+		childResult := c.test(input)
 
-		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
-			totalRecordCount += c.score.recordCount
+		if childResult == t && !unknownValues {
+			return []node{c}, false
 		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = scores
+		}
+
+		if childResult != f {
+			children = append(children, c)
 		}
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
-		return trueDist, result
+	return children, unknownValues
+}
+
+func (n node) weighChildren(input DataRow) []scoreDist {
+	children, unknownValues := n.possibleChildren(input)
+
+	if len(children) == 1 && !unknownValues {
+		return children[0].weighChildren(input)
 	}
 
 	if unknownValues {
+		values := make([]string, 0, 0)
 		aggScoreMap := make(map[string]scoreDist)
+		totalRecordCount := 0.0
 
-		for nid, scores := range childScores {
-			for _, score := range scores {
+		for _, c := range children {
+			totalRecordCount += c.score.recordCount
+		}
+
+		for _, c := range children {
+			for _, score := range c.weighChildren(input) {
 				aggScore, ok := aggScoreMap[score.value]
 				if !ok {
 					aggScore = scoreDist{value: score.value}
+					values = append(values, score.value)
 				}
-				nodeRecordCount := childRecordCounts[nid]
+				nodeRecordCount := c.score.recordCount
 
 				aggScore.recordCount += score.recordCount
 				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
@@ -321,14 +334,14 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+		for _, value := range values {
+			aggScores = append(aggScores, aggScoreMap[value])
 		}
 
-		return aggScores, t
+		return aggScores
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist()
 }
 
 func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]scoreDist, predicateResult) {
-- 
2.43.0


From aca2f164e0564634249cb2c4d86c8880c68e25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 37/51] fix: aggregate the record counts of the possible leaves

---
 evaluation/tree.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4c1c617..6822143 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -347,30 +347,28 @@ func (n node) weighChildren(input DataRow) []scoreDist {
 func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
-		return n.outputScoreDist(), result
+	if result == f || result == u {
+		return emptyScoreDist, result
 	}
 
-	childScores := make([]scoreDist, 0, 0)
-	unknownValues := false
-	var trueDist []scoreDist
-
-	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
+	return n.aggregateChildren(input), t
+}
 
-		if childResult == u {
-			unknownValues = true
-		} else if childResult == t {
-			trueDist = score
-		}
-	}
+func (n node) aggregateChildren(input DataRow) []scoreDist {
+	children, unknownValues := n.possibleChildren(input)
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, result
+	if len(children) == 1 && !unknownValues {
+		return children[0].aggregateChildren(input)
 	}
 
 	if unknownValues {
+		childScores := make([]scoreDist, 0, 0)
+
+		for _, c := range children {
+			childScores = append(childScores, c.aggregateChildren(input)...)
+		}
+
+		values := make([]string, 0, 0)
 		aggScoreMap := make(map[string]scoreDist)
 
 		recordCount := 0.0
@@ -379,6 +377,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 			if !ok {
 				aggScore.value = sc.value
+				values = append(values, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
@@ -387,16 +386,17 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range values {
+			aggScore := aggScoreMap[value]
 			aggScore.probability = aggScore.recordCount / recordCount
 			aggScore.confidence = aggScore.recordCount / recordCount
 			aggScores = append(aggScores, aggScore)
 		}
 
-		return aggScores, t
+		return aggScores
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist()
 }
 
 func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.TreeModel) (*TreeModel, error) {
-- 
2.43.0


From 396f663d829880628b3f0b38132e23e0a0507bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 38/51] fix: do not write to the model while scoring

---
 evaluation/tree.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 6822143..9bae64a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -404,7 +403,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -883,12 +881,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
+				key := fmt.Sprintf("probability(%s)", score.value)
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-- 
2.43.0


From 3107ae5ec7329f4a9e6a19140dd82180cde6e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 39/51] fix: report that a regression tree cannot combine
 scores by class confidence

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 9bae64a..139c656 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -885,6 +885,10 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
+			if len(scores) != 1 {
+				return nil, fmt.Errorf("missing value strategy %s has no score for regression", m.model.MissingValueStrategy)
+			}
+
 			score, err := strconv.ParseFloat(scores[0].value, 64)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 836727d69277c569788864811dce209748f976f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 40/51] fix: combine exactly the segments whose predicate is
 true

Segment predicates were ignored, an average was rescaled before it was
divided, and a regression model's score was left out of a sum.
---
 evaluation/mining.go | 112 +++++++++++++++++++++++++++++++++++++------
 evaluation/tree.go   |  41 +++++++++-------
 2 files changed, 121 insertions(+), 32 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index a883355..f290118 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -15,6 +15,7 @@ type MiningModel struct {
 	model *models.MiningModel
 
 	segmodels []Model
+	segtests  []test
 
 	fieldTypes    map[models.FieldName]models.DataType
 	targetField   models.FieldName
@@ -92,12 +93,18 @@ func (m *MiningModel) Compile() error {
 	}
 
 	m.segmodels = nil
+	m.segtests = nil
 
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
 		}
 
+		segtest, err := m.segmentTest(seg)
+		if err != nil {
+			return err
+		}
+
 		segmdl := seg.Models[0]
 		mdl, err := NewModel(m.dd, &td, segmdl)
 
@@ -106,6 +113,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		m.segmodels = append(m.segmodels, mdl)
+		m.segtests = append(m.segtests, segtest)
 	}
 
 	m.compiled = true
@@ -113,8 +121,30 @@ func (m *MiningModel) Compile() error {
 	return nil
 }
 
+// segmentTest compiles the predicate that decides whether a segment is active.
+func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
+	if len(seg.Predicates) == 0 {
+		return func(DataRow) predicateResult { return t }, nil
+	}
+
+	if len(seg.Predicates) != 1 {
+		return nil, fmt.Errorf("segment %s has %d predicates", seg.Id, len(seg.Predicates))
+	}
+
+	err := compilePredicate(m.fieldTypes, seg.Predicates[0])
+	if err != nil {
+		return nil, err
+	}
+
+	return newTest(m.fieldTypes, seg.Predicates[0]), nil
+}
+
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -123,18 +153,26 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 		return segOut, nil
 	}
 
-	return nil, errors.New("no segment models to evaluate")
+	if len(m.segmodels) == 0 {
+		return nil, errors.New("no segment models to evaluate")
+	}
+
+	return nil, nil
 }
 
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
-	lastOut := make(DataRow)
+	var lastOut DataRow
 
 	input = input.copy()
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -147,6 +185,18 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	scoreMap, active, err := m.sumSegments(input)
+	if err != nil || active == 0 {
+		return nil, err
+	}
+
+	return m.rescale(scoreMap), nil
+}
+
+// sumSegments adds up the results of the active segments that have one and
+// counts them.
+func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, int, error) {
+	active := 0
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -157,12 +207,21 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	for i, segmodel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 
+		if segout == nil {
+			continue
+		}
+		active++
+
 		for k, v := range scoreMap {
 			if m.model.FunctionName == models.MiningFunctionClassification {
 				outval, ok := segout[string(k)]
@@ -170,14 +229,37 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 					scoreMap[k] = v + outval.Float64()
 				}
 			} else {
-				outval, ok := segout["score"]
-				if ok {
-					scoreMap[k] = v + outval.Float64()
+				outval, ok := predictedScore(segmodel, segout)
+				if !ok {
+					return nil, 0, errors.New("segment of a regression ensemble predicts no single score")
 				}
+				scoreMap[k] = v + outval.Float64()
 			}
 		}
 	}
 
+	return scoreMap, active, nil
+}
+
+// predictedScore is the number a segment of a regression ensemble predicts.
+func predictedScore(segmodel Model, segout DataRow) (Value, bool) {
+	if score, ok := segout["score"]; ok {
+		return score, true
+	}
+
+	if mining, ok := segmodel.(*MiningModel); ok && len(mining.targets) > 0 {
+		score, ok := segout[string(mining.targets[0].Field)]
+		return score, ok
+	}
+
+	for _, score := range segout {
+		return score, len(segout) == 1
+	}
+
+	return Value{}, false
+}
+
+func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 	for _, target := range m.targets {
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
@@ -192,20 +274,20 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		out[string(k)] = NewValue(v)
 	}
 
-	return out, nil
+	return out
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
-	if err != nil {
+	scoreMap, active, err := m.sumSegments(input)
+	if err != nil || active == 0 {
 		return nil, err
 	}
 
-	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
+	for lbl, score := range scoreMap {
+		scoreMap[lbl] = score / float64(active)
 	}
 
-	return out, nil
+	return m.rescale(scoreMap), nil
 }
 
 func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 139c656..ee6a66e 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -443,10 +443,10 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) error {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -471,7 +471,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 
 		p.RawPredicateValue = pv
 	case *models.SimpleSetPredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -502,7 +502,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+			err := compilePredicate(fieldTypes, cp)
 			if err != nil {
 				return err
 			}
@@ -587,33 +587,40 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	err := compilePredicate(m.fieldTypes, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
 
-	switch p := modelNode.Predicate.(type) {
+	n.test = newTest(m.fieldTypes, modelNode.Predicate)
+	if n.test == nil {
+		return n, fmt.Errorf("tree node %s has no predicate", modelNode.ID)
+	}
+
+	return n, nil
+}
+
+func newTest(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) test {
+	switch p := pi.(type) {
 	case *models.True:
-		n.test = func(DataRow) predicateResult { return t }
+		return func(DataRow) predicateResult { return t }
 	case *models.False:
-		n.test = func(DataRow) predicateResult { return f }
+		return func(DataRow) predicateResult { return f }
 	case *models.SimplePredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimplePredicate(p, input, m.fieldTypes)
+		return func(input DataRow) predicateResult {
+			return evaluateSimplePredicate(p, input, fieldTypes)
 		}
 	case *models.CompoundPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateCompoundPredicate(p, input, m.fieldTypes)
+		return func(input DataRow) predicateResult {
+			return evaluateCompoundPredicate(p, input, fieldTypes)
 		}
 	case *models.SimpleSetPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
+		return func(input DataRow) predicateResult {
+			return evaluateSimpleSetPredicate(p, input, fieldTypes)
 		}
-	default:
-		return n, fmt.Errorf("tree node %s has no predicate", modelNode.ID)
 	}
 
-	return n, nil
+	return nil
 }
 
 // equalValue compares a value to a predicate's constant as values of the
-- 
2.43.0


From 3590caa2048f3fac3ad57f0d7ccf3fd8444fd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 41/51] fix: verify zero, negative, NaN and label outputs, and
 read inputs by field

---
 evaluation/evaluation.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..b8c4233 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -34,6 +34,11 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		return nil
 	}
 
+	numeric := func(s string) bool {
+		_, err := strconv.ParseFloat(s, 64)
+		return err == nil
+	}
+
 	outputMap := make(map[string]string)
 	inputMap := make(map[string]string)
 
@@ -52,9 +57,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
@@ -66,14 +71,22 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for k, v := range vRow {
 			fieldName, isOutput := outputMap[k]
 			if isOutput {
-				expected := NewValue(v).Float64()
+				expectedVal := NewValue(v)
+				expected := expectedVal.Float64()
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
+				if !numeric(expectedVal.String()) || !numeric(predictedVal.String()) {
+					if predictedVal.String() != expectedVal.String() {
+						return fmt.Errorf("%s: expected %s, predicted %s", k, expectedVal, predictedVal)
+					}
+					continue
+				}
+
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if predicted != expected && !(math.Abs(delta) < 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From af0354a5b9143b0ea19da4b3f3462fbd38796028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 42/51] fix: let later segments of a chain test the outputs of
 earlier ones

---
 evaluation/mining.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index f290118..d07ae21 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -92,6 +92,10 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	// the segments of a chain see the outputs of the ones before them
+	dd := *m.dd
+	dd.DataFields = append([]models.DataField{}, m.dd.DataFields...)
+
 	m.segmodels = nil
 	m.segtests = nil
 
@@ -106,7 +110,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, &td, segmdl)
+		mdl, err := NewModel(&dd, &td, segmdl)
 
 		if err != nil {
 			return err
@@ -114,6 +118,22 @@ func (m *MiningModel) Compile() error {
 
 		m.segmodels = append(m.segmodels, mdl)
 		m.segtests = append(m.segtests, segtest)
+
+		if m.model.Segmentation.MultipleModelMethod != models.MultipleModelMethodModelChain {
+			continue
+		}
+
+		for _, field := range declaredOutputs(segmdl) {
+			if _, ok := m.fieldTypes[field.Name]; ok {
+				continue
+			}
+			if field.DataType == "" {
+				field.DataType = models.DataTypeDouble
+			}
+
+			m.fieldTypes[field.Name] = field.DataType
+			dd.DataFields = append(dd.DataFields, models.DataField{Name: field.Name, DataType: field.DataType, OpType: field.OpType})
+		}
 	}
 
 	m.compiled = true
@@ -121,6 +141,17 @@ func (m *MiningModel) Compile() error {
 	return nil
 }
 
+func declaredOutputs(mdl models.ModelElement) []models.OutputField {
+	switch v := mdl.(type) {
+	case *models.MiningModel:
+		return v.Output.Fields
+	case *models.RegressionModel:
+		return v.Output.Fields
+	}
+
+	return nil
+}
+
 // segmentTest compiles the predicate that decides whether a segment is active.
 func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
 	if len(seg.Predicates) == 0 {
-- 
2.43.0


From b941f6e3f2446296ebb9ba108c0bae2ae9a0f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 43/51] fix: spell floating-point values without an exponent

---
 evaluation/miningschema.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 5d88dbd..3acd474 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -159,9 +159,25 @@ func (v Value) String() string {
 		return s.String()
 	}
 
+	// a number reads the same whether the row holds it as an integer or not
+	switch n := v.val.(type) {
+	case float64:
+		return formatFloat(n, 64)
+	case float32:
+		return formatFloat(float64(n), 32)
+	}
+
 	return fmt.Sprintf("%v", v.val)
 }
 
+func formatFloat(f float64, bits int) string {
+	if f == math.Trunc(f) {
+		return strconv.FormatFloat(f, 'f', 0, 64)
+	}
+
+	return strconv.FormatFloat(f, 'f', -1, bits)
+}
+
 type DataRow map[string]Value
 
 // copy lets a model add fields without changing the caller's row.
-- 
2.43.0


From 0fc82e2ec491543550714500238e256907077a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 44/51] fix: reject mining models of unsupported functions

---
 evaluation/mining.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index d07ae21..e50acc9 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -47,6 +47,11 @@ func (m *MiningModel) Verify() error {
 }
 
 func (m *MiningModel) Validate() error {
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
+		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
+	}
+
 	if string(m.model.Segmentation.MultipleModelMethod) == "" {
 		m.model.Segmentation.MultipleModelMethod = models.MultipleModelMethodSum
 	}
-- 
2.43.0


From 1802fa899ee45e1ae1fcaad3b284bffc7c1dfa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 45/51] fix: accept the default output feature written out in
 mining models

---
 evaluation/mining.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index e50acc9..ac73b3d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -63,7 +63,7 @@ func (m *MiningModel) Validate() error {
 	}
 
 	for _, f := range m.model.Output.Fields {
-		if f.Feature != "" && f.Feature != models.ResultFeatureProbability {
+		if f.Feature != "" && f.Feature != models.ResultFeaturePredictedValue && f.Feature != models.ResultFeatureProbability {
 			return fmt.Errorf("unsupported output feature type %s", f.Feature)
 		}
 	}
-- 
2.43.0


From 2531c7ef72c4c5f8a374897f513609fad27e572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 46/51] fix: compare integers that no int64 holds as numbers

---
 evaluation/miningschema.go | 60 ++++++++++++++++++++++++++++++++++----
 evaluation/tree.go         | 11 +++----
 2 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 3acd474..bbe6dd0 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -1,6 +1,7 @@
 package evaluation
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -75,14 +76,61 @@ func (v Value) Float64() float64 {
 	return float64(v.Int64())
 }
 
-// floating reports whether the value is not held as an integer.
-func (v Value) floating() bool {
-	switch v.val.(type) {
-	case string, float32, float64:
-		return true
+// compareInt64 orders the value and an integer as numbers, also when no int64
+// holds the value. It reports false if the value is not a number.
+func (v Value) compareInt64(c int64) (order int, ok bool) {
+	switch n := v.val.(type) {
+	case uint:
+		if uint64(n) > math.MaxInt64 {
+			return 1, true
+		}
+	case uint64:
+		if n > math.MaxInt64 {
+			return 1, true
+		}
+	case float32, float64:
+		return compareFloat64(v.Float64(), c)
+	case string:
+		_, err := strconv.ParseInt(strings.TrimSpace(n), 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			if strings.HasPrefix(strings.TrimSpace(n), "-") {
+				return -1, true
+			}
+			return 1, true
+		}
+		if err != nil {
+			return compareFloat64(v.Float64(), c)
+		}
+	}
+
+	switch i := v.Int64(); {
+	case i < c:
+		return -1, true
+	case i > c:
+		return 1, true
+	}
+
+	return 0, true
+}
+
+func compareFloat64(f float64, c int64) (order int, ok bool) {
+	switch {
+	case math.IsNaN(f):
+		return 0, false
+	case f < math.MinInt64:
+		return -1, true
+	case f >= math.MaxInt64:
+		return 1, true
+	}
+
+	switch i := int64(f); {
+	case i < c || i == c && f < math.Trunc(f):
+		return -1, true
+	case i > c || f > math.Trunc(f):
+		return 1, true
 	}
 
-	return false
+	return 0, true
 }
 
 func (v Value) Bool() bool {
diff --git a/evaluation/tree.go b/evaluation/tree.go
index ee6a66e..a348505 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -632,7 +632,8 @@ func equalValue(val Value, constant interface{}) bool {
 	case float64:
 		return val.Float64() == c
 	case int64:
-		return val.Int64() == c && (!val.floating() || val.Float64() == float64(c))
+		order, ok := val.compareInt64(c)
+		return ok && order == 0
 	case string:
 		return val.String() == c
 	}
@@ -687,7 +688,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() >= p.RawPredicateValue.(int64) {
+			if order, ok := val.compareInt64(p.RawPredicateValue.(int64)); ok && order >= 0 {
 				return t
 			}
 		}
@@ -702,7 +703,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() > p.RawPredicateValue.(int64) {
+			if order, ok := val.compareInt64(p.RawPredicateValue.(int64)); ok && order > 0 {
 				return t
 			}
 		}
@@ -717,7 +718,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() <= p.RawPredicateValue.(int64) {
+			if order, ok := val.compareInt64(p.RawPredicateValue.(int64)); ok && order <= 0 {
 				return t
 			}
 		}
@@ -732,7 +733,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() < p.RawPredicateValue.(int64) {
+			if order, ok := val.compareInt64(p.RawPredicateValue.(int64)); ok && order < 0 {
 				return t
 			}
 		}
-- 
2.43.0


From 6b8182318b92855ceb44a4230fa211af3fab4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 47/51] fix: score every output field of a class and none for a
 class without

---
 evaluation/regression.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 2f9e400..2c96aa6 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -209,13 +209,13 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
-	outFields := make(map[string]string)
+	outFields := make(map[string][]string)
 	for _, output := range m.model.Output.Fields {
-		outFields[output.Value] = string(output.Name)
+		outFields[output.Value] = append(outFields[output.Value], string(output.Name))
 	}
 
 	y := make([]float64, len(m.model.RegressionTables))
-	targets := make([]string, len(m.model.RegressionTables))
+	targets := make([][]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
 		targets[i] = outFields[rtbl.TargetCategory]
 		y[i] = rtbl.Intercept
@@ -237,7 +237,8 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		y[i] += categorical
 	}
 
-	for i, target := range targets {
+	for i, names := range targets {
+		p := 0.0
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			yMax := y[0]
@@ -248,16 +249,19 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			for _, yVal := range y {
 				s += math.Exp(yVal - yMax)
 			}
-			out[target] = NewValue(math.Exp(y[i]-yMax) / s)
+			p = math.Exp(y[i]-yMax) / s
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
 				s += yVal
 			}
-			out[target] = NewValue(y[i] / s)
+			p = y[i] / s
 		default:
 			return out, fmt.Errorf("unsupported normalization method: %v", m.model.RegressionNormalizationMethod)
 		}
+		for _, name := range names {
+			out[name] = NewValue(p)
+		}
 	}
 	return out, nil
 }
-- 
2.43.0


From 2ffcb8923bfde8b805703b8baec8176620c9dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 48/51] fix: recognise two-class regression by its tables, not
 its outputs

---
 evaluation/regression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 2c96aa6..252757b 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -111,7 +111,7 @@ func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
-	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 &&
+	} else if m.model.FunctionName == "classification" && len(m.model.RegressionTables) == 2 &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax {
 		return m.EvaluateBinaryClassification(input)
-- 
2.43.0


From 83c26f6db48d2b6decb3fa7397ea17f2e0f33556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:52 +0000
Subject: [PATCH 49/51] fix: Node: accept surrounding whitespace in recordCount

---
 models/elements.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index a7d1462..068c6be 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4,6 +4,7 @@ package models
 import (
 	"encoding/xml"
 	"strconv"
+	"strings"
 
 	defaults "github.com/mcuadros/go-defaults"
 	"github.com/pkg/errors"
@@ -3426,7 +3427,7 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.ID = attr.Value
 		case "recordCount":
 			if len(attr.Value) > 0 {
-				v, err := strconv.ParseFloat(attr.Value, 64)
+				v, err := strconv.ParseFloat(strings.TrimSpace(attr.Value), 64)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From dcd86b93935a9cd7428a9d26bd9ba5db25f5af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:24 +0000
Subject: [PATCH 50/51] fix: a nested ensemble contributes its rescaled target,
 also next to an output named score

---
 evaluation/mining.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index ac73b3d..3ab7075 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -279,13 +279,14 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 
 // predictedScore is the number a segment of a regression ensemble predicts.
 func predictedScore(segmodel Model, segout DataRow) (Value, bool) {
-	if score, ok := segout["score"]; ok {
-		return score, true
+	if mining, ok := segmodel.(*MiningModel); ok && len(mining.targets) > 0 {
+		if score, ok := segout[string(mining.targets[0].Field)]; ok {
+			return score, true
+		}
 	}
 
-	if mining, ok := segmodel.(*MiningModel); ok && len(mining.targets) > 0 {
-		score, ok := segout[string(mining.targets[0].Field)]
-		return score, ok
+	if score, ok := segout["score"]; ok {
+		return score, true
 	}
 
 	for _, score := range segout {
-- 
2.43.0


From 019c950bd944bf1a2886c5e499427a15d0c326e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:14 +0000
Subject: [PATCH 51/51] fix: decoding by several goroutines at once raced at
 the first use of the defaults

---
 models/helpers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/models/helpers.go b/models/helpers.go
index 51dc013..b1bce89 100644
--- a/models/helpers.go
+++ b/models/helpers.go
@@ -1,5 +1,15 @@
 package models
 
+import (
+	defaults "github.com/mcuadros/go-defaults"
+)
+
+// The defaults package creates its shared filler at its first use, without a
+// lock: use it once before anything can be decoded concurrently.
+func init() {
+	defaults.SetDefaults(&struct{}{})
+}
+
 func String(v string) *string {
 	return &v
 }
-- 
2.43.0

