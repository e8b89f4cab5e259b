// Code generated by tools/mkgrammars.py. DO NOT EDIT.
package main

import "github.com/aiq/tok"

type myRule tok.Rule

type wrapRule struct{ tok.Rule }

type gram0 struct {
}

func (g *gram0) Read(s *tok.Scanner) error { return nil }
func (g *gram0) What() string              { return "gram" }
func (g *gram0) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram0) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram0) fields() []field {
	return []field{}
}

type gram1 struct {
	Alpha tok.Rule `json:"j" name:"aä"`
}

func (g *gram1) Read(s *tok.Scanner) error { return nil }
func (g *gram1) What() string              { return "gram" }
func (g *gram1) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram1) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram1) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "aä"},
	}
}

type gram2 struct {
	Alpha tok.Rule `name:"ä"`
	Bravo tok.Rule `name:"Z"`
}

func (g *gram2) Read(s *tok.Scanner) error { return nil }
func (g *gram2) What() string              { return "gram" }
func (g *gram2) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram2) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram2) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "ä"},
		{"Bravo", "rule", 1, "Z"},
	}
}

type gram3 struct {
	Alpha tok.Rule `name:"rule"`
	Bravo tok.Rule `json:"j" name:"a_b"`
	carol tok.Rule `x:"" name:"B2-c.d_e+f"`
}

func (g *gram3) Read(s *tok.Scanner) error { return nil }
func (g *gram3) What() string              { return "gram" }
func (g *gram3) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram3) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram3) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "rule"},
		{"Bravo", "rule", 1, "a_b"},
		{"carol", "hidden", 1, "B2-c.d_e+f"},
	}
}

type gram4 struct {
	Alpha string     `json:"j" name:"B2-c.d_e+f"`
	Bravo []tok.Rule `json:"j" name:"B2-c.d_e+f"`
	Carol tok.Rule   `name:"a+b"`
	Delta tok.Rule   `name:"rule"`
}

func (g *gram4) Read(s *tok.Scanner) error { return nil }
func (g *gram4) What() string              { return "gram" }
func (g *gram4) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram4) rules() []*tok.Rule        { return []*tok.Rule{&g.Carol, &g.Delta} }
func (g *gram4) fields() []field {
	return []field{
		{"Alpha", "other", 1, "B2-c.d_e+f"},
		{"Bravo", "other", 1, "B2-c.d_e+f"},
		{"Carol", "rule", 1, "a+b"},
		{"Delta", "rule", 1, "rule"},
	}
}

type gram5 struct {
	Alpha tok.Rule             `x:"" name:"A{"`
	Bravo tok.Rule             `name:"a-b"`
	carol tok.Rule             `name:"Value"`
	Delta struct{ A tok.Rule } `json:"j" name:" a"`
	Echo  tok.Rule             `x:"" name:"a+b"`
}

func (g *gram5) Read(s *tok.Scanner) error { return nil }
func (g *gram5) What() string              { return "gram" }
func (g *gram5) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram5) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Echo} }
func (g *gram5) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "A{"},
		{"Bravo", "rule", 1, "a-b"},
		{"carol", "hidden", 1, "Value"},
		{"Delta", "other", 1, " a"},
		{"Echo", "rule", 1, "a+b"},
	}
}

type gram6 struct {
	Alpha tok.Rule `name:"q+"`
	Bravo tok.Rule `name:"zZ9"`
	Carol tok.Rule `x:"" name:"a_b"`
	Delta tok.Rule `x:"" name:"a+b"`
	Echo  tok.Rule `x:"" name:"a+b"`
	fox   tok.Rule `json:"name"`
}

func (g *gram6) Read(s *tok.Scanner) error { return nil }
func (g *gram6) What() string              { return "gram" }
func (g *gram6) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram6) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo}
}
func (g *gram6) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "q+"},
		{"Bravo", "rule", 1, "zZ9"},
		{"Carol", "rule", 1, "a_b"},
		{"Delta", "rule", 1, "a+b"},
		{"Echo", "rule", 1, "a+b"},
		{"fox", "hidden", 0, ""},
	}
}

type gram7 struct {
}

func (g *gram7) Read(s *tok.Scanner) error { return nil }
func (g *gram7) What() string              { return "gram" }
func (g *gram7) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram7) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram7) fields() []field {
	return []field{}
}

type gram8 struct {
	Alpha tok.Rule `json:"j" name:"a@"`
}

func (g *gram8) Read(s *tok.Scanner) error { return nil }
func (g *gram8) What() string              { return "gram" }
func (g *gram8) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram8) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram8) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a@"},
	}
}

type gram9 struct {
	Alpha tok.Rule `json:"name"`
	Bravo tok.Rule `name:"x1"`
}

func (g *gram9) Read(s *tok.Scanner) error { return nil }
func (g *gram9) What() string              { return "gram" }
func (g *gram9) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram9) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram9) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
		{"Bravo", "rule", 1, "x1"},
	}
}

type gram10 struct {
	Alpha []tok.Rule `name:"e."`
	Bravo tok.Rule   `x:"" name:"a_b"`
	Carol tok.Rule   `x:"" name:"Value"`
}

func (g *gram10) Read(s *tok.Scanner) error { return nil }
func (g *gram10) What() string              { return "gram" }
func (g *gram10) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram10) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Carol} }
func (g *gram10) fields() []field {
	return []field{
		{"Alpha", "other", 1, "e."},
		{"Bravo", "rule", 1, "a_b"},
		{"Carol", "rule", 1, "Value"},
	}
}

type gram11 struct {
	Alpha tok.Rule `name:"a+b"`
	bravo tok.Rule `name:"aä"`
	Carol tok.Rule `x:"" name:"a"`
	Delta tok.Rule `json:"name"`
}

func (g *gram11) Read(s *tok.Scanner) error { return nil }
func (g *gram11) What() string              { return "gram" }
func (g *gram11) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram11) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Carol, &g.Delta} }
func (g *gram11) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a+b"},
		{"bravo", "hidden", 1, "aä"},
		{"Carol", "rule", 1, "a"},
		{"Delta", "rule", 0, ""},
	}
}

type gram12 struct {
	Alpha tok.Rule `name:"a.b"`
	Bravo tok.Rule `name:"a+b"`
	Carol tok.Rule `name:"a+b"`
	Delta tok.Rule `json:"j" name:"q+"`
	Echo  tok.Rule `name:"e."`
}

func (g *gram12) Read(s *tok.Scanner) error { return nil }
func (g *gram12) What() string              { return "gram" }
func (g *gram12) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram12) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo}
}
func (g *gram12) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a.b"},
		{"Bravo", "rule", 1, "a+b"},
		{"Carol", "rule", 1, "a+b"},
		{"Delta", "rule", 1, "q+"},
		{"Echo", "rule", 1, "e."},
	}
}

type gram13 struct {
	Alpha tok.Rule
	Bravo tok.Rule `name:"Z"`
	Carol tok.Rule `name:"Value"`
	Delta myRule   `json:"j" name:"rule"`
	Echo  tok.Rule
	Fox   tok.Rule `name:"A{"`
}

func (g *gram13) Read(s *tok.Scanner) error { return nil }
func (g *gram13) What() string              { return "gram" }
func (g *gram13) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram13) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Echo, &g.Fox}
}
func (g *gram13) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
		{"Bravo", "rule", 1, "Z"},
		{"Carol", "rule", 1, "Value"},
		{"Delta", "other", 1, "rule"},
		{"Echo", "rule", 0, ""},
		{"Fox", "rule", 1, "A{"},
	}
}

type gram14 struct {
}

func (g *gram14) Read(s *tok.Scanner) error { return nil }
func (g *gram14) What() string              { return "gram" }
func (g *gram14) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram14) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram14) fields() []field {
	return []field{}
}

type gram15 struct {
	Alpha tok.Rule
}

func (g *gram15) Read(s *tok.Scanner) error { return nil }
func (g *gram15) What() string              { return "gram" }
func (g *gram15) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram15) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram15) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
	}
}

type gram16 struct {
	Alpha tok.Rule
	Bravo tok.Rule `x:"" name:"x1"`
}

func (g *gram16) Read(s *tok.Scanner) error { return nil }
func (g *gram16) What() string              { return "gram" }
func (g *gram16) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram16) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram16) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
		{"Bravo", "rule", 1, "x1"},
	}
}

type gram17 struct {
	Alpha tok.Rule
	Bravo tok.Rule `x:"" name:"w-"`
	Carol tok.Rule `name:"a_b"`
}

func (g *gram17) Read(s *tok.Scanner) error { return nil }
func (g *gram17) What() string              { return "gram" }
func (g *gram17) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram17) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol} }
func (g *gram17) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
		{"Bravo", "rule", 1, "w-"},
		{"Carol", "rule", 1, "a_b"},
	}
}

type gram18 struct {
	Alpha tok.Rule `name:"Z"`
	Bravo tok.Rule `json:"name"`
	Carol tok.Rule `x:"" name:"Z"`
	Delta tok.Rule `name:"Value"`
}

func (g *gram18) Read(s *tok.Scanner) error { return nil }
func (g *gram18) What() string              { return "gram" }
func (g *gram18) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram18) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta} }
func (g *gram18) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "Z"},
		{"Bravo", "rule", 0, ""},
		{"Carol", "rule", 1, "Z"},
		{"Delta", "rule", 1, "Value"},
	}
}

type gram19 struct {
	Alpha tok.Rule `x:"" name:"a+b"`
	Bravo tok.Rule `name:"aä"`
	Carol tok.Rule `json:"name"`
	Delta tok.Rule `json:"j" name:"."`
	Echo  []tok.Rule
}

func (g *gram19) Read(s *tok.Scanner) error { return nil }
func (g *gram19) What() string              { return "gram" }
func (g *gram19) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram19) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta} }
func (g *gram19) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a+b"},
		{"Bravo", "rule", 1, "aä"},
		{"Carol", "rule", 0, ""},
		{"Delta", "rule", 1, "."},
		{"Echo", "other", 0, ""},
	}
}

type gram20 struct {
	Alpha tok.Rule `json:"name"`
	Bravo tok.Rule `json:"j" name:"a/b"`
	Carol tok.Rule `name:"a+b"`
	Delta tok.Rule `name:"a/b"`
	Echo  tok.Rule `x:"" name:""`
	Fox   tok.Rule `name:"a b"`
}

func (g *gram20) Read(s *tok.Scanner) error { return nil }
func (g *gram20) What() string              { return "gram" }
func (g *gram20) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram20) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo, &g.Fox}
}
func (g *gram20) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
		{"Bravo", "rule", 1, "a/b"},
		{"Carol", "rule", 1, "a+b"},
		{"Delta", "rule", 1, "a/b"},
		{"Echo", "rule", 1, ""},
		{"Fox", "rule", 1, "a b"},
	}
}

type gram21 struct {
}

func (g *gram21) Read(s *tok.Scanner) error { return nil }
func (g *gram21) What() string              { return "gram" }
func (g *gram21) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram21) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram21) fields() []field {
	return []field{}
}

type gram22 struct {
	Alpha tok.Rule
}

func (g *gram22) Read(s *tok.Scanner) error { return nil }
func (g *gram22) What() string              { return "gram" }
func (g *gram22) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram22) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram22) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
	}
}

type gram23 struct {
	Alpha tok.Rule `json:"j" name:""`
	Bravo tok.Rule `name:"x1"`
}

func (g *gram23) Read(s *tok.Scanner) error { return nil }
func (g *gram23) What() string              { return "gram" }
func (g *gram23) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram23) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram23) fields() []field {
	return []field{
		{"Alpha", "rule", 1, ""},
		{"Bravo", "rule", 1, "x1"},
	}
}

type gram24 struct {
	Alpha tok.Rule `name:"Z"`
	Bravo tok.Rule `name:"zZ9"`
	Carol string   `json:"j" name:"a-b"`
}

func (g *gram24) Read(s *tok.Scanner) error { return nil }
func (g *gram24) What() string              { return "gram" }
func (g *gram24) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram24) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram24) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "Z"},
		{"Bravo", "rule", 1, "zZ9"},
		{"Carol", "other", 1, "a-b"},
	}
}

type gram25 struct {
	Alpha *tok.Rule `name:"aä"`
	Bravo tok.Rule  `json:"j" name:"zZ9"`
	Carol wrapRule
	Delta tok.Rule `x:"" name:"Z"`
}

func (g *gram25) Read(s *tok.Scanner) error { return nil }
func (g *gram25) What() string              { return "gram" }
func (g *gram25) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram25) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Delta} }
func (g *gram25) fields() []field {
	return []field{
		{"Alpha", "other", 1, "aä"},
		{"Bravo", "rule", 1, "zZ9"},
		{"Carol", "other", 0, ""},
		{"Delta", "rule", 1, "Z"},
	}
}

type gram26 struct {
	Alpha tok.Rule `x:"" name:"B2-c.d_e+f"`
	Bravo tok.Rule `json:"j" name:"r_"`
	Carol tok.Rule `name:"-a"`
	Delta tok.Rule `json:"j" name:"a_b"`
	Echo  tok.Rule `name:""`
}

func (g *gram26) Read(s *tok.Scanner) error { return nil }
func (g *gram26) What() string              { return "gram" }
func (g *gram26) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram26) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo}
}
func (g *gram26) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "B2-c.d_e+f"},
		{"Bravo", "rule", 1, "r_"},
		{"Carol", "rule", 1, "-a"},
		{"Delta", "rule", 1, "a_b"},
		{"Echo", "rule", 1, ""},
	}
}

type gram27 struct {
	Alpha tok.Rule `x:"" name:"r_"`
	bravo tok.Rule
	Carol tok.Rule `json:"name"`
	delta tok.Rule `json:"name"`
	echo  tok.Rule
	Fox   tok.Rule `name:"B2-c.d_e+f"`
}

func (g *gram27) Read(s *tok.Scanner) error { return nil }
func (g *gram27) What() string              { return "gram" }
func (g *gram27) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram27) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Carol, &g.Fox} }
func (g *gram27) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "r_"},
		{"bravo", "hidden", 0, ""},
		{"Carol", "rule", 0, ""},
		{"delta", "hidden", 0, ""},
		{"echo", "hidden", 0, ""},
		{"Fox", "rule", 1, "B2-c.d_e+f"},
	}
}

type gram28 struct {
}

func (g *gram28) Read(s *tok.Scanner) error { return nil }
func (g *gram28) What() string              { return "gram" }
func (g *gram28) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram28) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram28) fields() []field {
	return []field{}
}

type gram29 struct {
	Alpha tok.Rule `name:"-a"`
}

func (g *gram29) Read(s *tok.Scanner) error { return nil }
func (g *gram29) What() string              { return "gram" }
func (g *gram29) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram29) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram29) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "-a"},
	}
}

type gram30 struct {
	Alpha tok.Rule `name:"B2-c.d_e+f"`
	Bravo tok.Rule `json:"j" name:"B2-c.d_e+f"`
}

func (g *gram30) Read(s *tok.Scanner) error { return nil }
func (g *gram30) What() string              { return "gram" }
func (g *gram30) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram30) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram30) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "B2-c.d_e+f"},
		{"Bravo", "rule", 1, "B2-c.d_e+f"},
	}
}

type gram31 struct {
	Alpha tok.Rule             `x:"" name:"1a"`
	Bravo tok.Rule             `x:"" name:"x1"`
	Carol struct{ A tok.Rule } `json:"j" name:"e."`
}

func (g *gram31) Read(s *tok.Scanner) error { return nil }
func (g *gram31) What() string              { return "gram" }
func (g *gram31) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram31) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram31) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "1a"},
		{"Bravo", "rule", 1, "x1"},
		{"Carol", "other", 1, "e."},
	}
}

type gram32 struct {
	Alpha tok.Rule `json:"j" name:"a/b"`
	Bravo tok.Rule `name:"a"`
	carol tok.Rule `json:"j" name:"-a"`
	delta tok.Rule `name:"a_b"`
}

func (g *gram32) Read(s *tok.Scanner) error { return nil }
func (g *gram32) What() string              { return "gram" }
func (g *gram32) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram32) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram32) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a/b"},
		{"Bravo", "rule", 1, "a"},
		{"carol", "hidden", 1, "-a"},
		{"delta", "hidden", 1, "a_b"},
	}
}

type gram33 struct {
	Alpha tok.Rule `name:"a+b"`
	bravo tok.Rule `x:"" name:"a.b"`
	Carol tok.Rule `json:"j" name:"x1"`
	delta tok.Rule
	Echo  *tok.Rule `name:"a_b"`
}

func (g *gram33) Read(s *tok.Scanner) error { return nil }
func (g *gram33) What() string              { return "gram" }
func (g *gram33) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram33) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Carol} }
func (g *gram33) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a+b"},
		{"bravo", "hidden", 1, "a.b"},
		{"Carol", "rule", 1, "x1"},
		{"delta", "hidden", 0, ""},
		{"Echo", "other", 1, "a_b"},
	}
}

type gram34 struct {
	Alpha int       `x:"" name:"9"`
	Bravo tok.Rule  `name:"a-b"`
	Carol *tok.Rule `name:"q+"`
	Delta tok.Rule
	Echo  tok.Rule `name:"rule"`
	fox   tok.Rule `json:"name"`
}

func (g *gram34) Read(s *tok.Scanner) error { return nil }
func (g *gram34) What() string              { return "gram" }
func (g *gram34) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram34) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Delta, &g.Echo} }
func (g *gram34) fields() []field {
	return []field{
		{"Alpha", "other", 1, "9"},
		{"Bravo", "rule", 1, "a-b"},
		{"Carol", "other", 1, "q+"},
		{"Delta", "rule", 0, ""},
		{"Echo", "rule", 1, "rule"},
		{"fox", "hidden", 0, ""},
	}
}

type gram35 struct {
}

func (g *gram35) Read(s *tok.Scanner) error { return nil }
func (g *gram35) What() string              { return "gram" }
func (g *gram35) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram35) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram35) fields() []field {
	return []field{}
}

type gram36 struct {
	alpha tok.Rule `x:"" name:"Z"`
}

func (g *gram36) Read(s *tok.Scanner) error { return nil }
func (g *gram36) What() string              { return "gram" }
func (g *gram36) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram36) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram36) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "Z"},
	}
}

type gram37 struct {
	Alpha tok.Rule `name:"+"`
	Bravo tok.Rule `name:""`
}

func (g *gram37) Read(s *tok.Scanner) error { return nil }
func (g *gram37) What() string              { return "gram" }
func (g *gram37) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram37) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram37) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "+"},
		{"Bravo", "rule", 1, ""},
	}
}

type gram38 struct {
	Alpha tok.Rule   `json:"j" name:"."`
	Bravo []tok.Rule `name:"zZ9"`
	Carol tok.Rule   `name:"a+b"`
}

func (g *gram38) Read(s *tok.Scanner) error { return nil }
func (g *gram38) What() string              { return "gram" }
func (g *gram38) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram38) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Carol} }
func (g *gram38) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "."},
		{"Bravo", "other", 1, "zZ9"},
		{"Carol", "rule", 1, "a+b"},
	}
}

type gram39 struct {
	alpha tok.Rule `name:"a-b"`
	Bravo tok.Rule `name:"rule"`
	Carol tok.Rule `x:"" name:"a"`
	Delta tok.Rule `json:"name"`
}

func (g *gram39) Read(s *tok.Scanner) error { return nil }
func (g *gram39) What() string              { return "gram" }
func (g *gram39) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram39) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Carol, &g.Delta} }
func (g *gram39) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "a-b"},
		{"Bravo", "rule", 1, "rule"},
		{"Carol", "rule", 1, "a"},
		{"Delta", "rule", 0, ""},
	}
}

type gram40 struct {
	Alpha tok.Rule `name:"a+b"`
	Bravo tok.Rule `json:"j" name:"a-b"`
	Carol tok.Rule `json:"j" name:""`
	Delta tok.Rule `name:"a-b"`
	Echo  tok.Rule `json:"j" name:"ä"`
}

func (g *gram40) Read(s *tok.Scanner) error { return nil }
func (g *gram40) What() string              { return "gram" }
func (g *gram40) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram40) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo}
}
func (g *gram40) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a+b"},
		{"Bravo", "rule", 1, "a-b"},
		{"Carol", "rule", 1, ""},
		{"Delta", "rule", 1, "a-b"},
		{"Echo", "rule", 1, "ä"},
	}
}

type gram41 struct {
	Alpha tok.Rule   `name:"A{"`
	Bravo tok.Rule   `json:"j" name:"a+b"`
	Carol tok.Rule   `x:"" name:" a"`
	Delta myRule     `json:"j" name:"9"`
	Echo  []tok.Rule `name:"r_"`
	Fox   tok.Rule   `json:"j" name:"a_b"`
}

func (g *gram41) Read(s *tok.Scanner) error { return nil }
func (g *gram41) What() string              { return "gram" }
func (g *gram41) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram41) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Fox} }
func (g *gram41) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "A{"},
		{"Bravo", "rule", 1, "a+b"},
		{"Carol", "rule", 1, " a"},
		{"Delta", "other", 1, "9"},
		{"Echo", "other", 1, "r_"},
		{"Fox", "rule", 1, "a_b"},
	}
}

type gram42 struct {
}

func (g *gram42) Read(s *tok.Scanner) error { return nil }
func (g *gram42) What() string              { return "gram" }
func (g *gram42) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram42) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram42) fields() []field {
	return []field{}
}

type gram43 struct {
	Alpha tok.Reader `x:"" name:"."`
}

func (g *gram43) Read(s *tok.Scanner) error { return nil }
func (g *gram43) What() string              { return "gram" }
func (g *gram43) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram43) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram43) fields() []field {
	return []field{
		{"Alpha", "other", 1, "."},
	}
}

type gram44 struct {
	Alpha tok.Rule `name:"a.b"`
	Bravo tok.Rule `name:"w-"`
}

func (g *gram44) Read(s *tok.Scanner) error { return nil }
func (g *gram44) What() string              { return "gram" }
func (g *gram44) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram44) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram44) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a.b"},
		{"Bravo", "rule", 1, "w-"},
	}
}

type gram45 struct {
	alpha tok.Rule `name:"a+b"`
	Bravo tok.Rule `name:"e."`
	Carol tok.Rule `x:"" name:"r_"`
}

func (g *gram45) Read(s *tok.Scanner) error { return nil }
func (g *gram45) What() string              { return "gram" }
func (g *gram45) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram45) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Carol} }
func (g *gram45) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "a+b"},
		{"Bravo", "rule", 1, "e."},
		{"Carol", "rule", 1, "r_"},
	}
}

type gram46 struct {
	Alpha tok.Rule `name:"a-b"`
	Bravo tok.Rule `x:"" name:"A{"`
	Carol tok.Rule `json:"j" name:"Value"`
	delta tok.Rule `x:"" name:"w-"`
}

func (g *gram46) Read(s *tok.Scanner) error { return nil }
func (g *gram46) What() string              { return "gram" }
func (g *gram46) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram46) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol} }
func (g *gram46) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a-b"},
		{"Bravo", "rule", 1, "A{"},
		{"Carol", "rule", 1, "Value"},
		{"delta", "hidden", 1, "w-"},
	}
}

type gram47 struct {
	Alpha tok.Rule   `x:"" name:" a"`
	Bravo tok.Rule   `x:"" name:"_x"`
	Carol tok.Rule   `json:"j" name:""`
	Delta tok.Reader `name:"a:b"`
	Echo  []tok.Rule `name:"9"`
}

func (g *gram47) Read(s *tok.Scanner) error { return nil }
func (g *gram47) What() string              { return "gram" }
func (g *gram47) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram47) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol} }
func (g *gram47) fields() []field {
	return []field{
		{"Alpha", "rule", 1, " a"},
		{"Bravo", "rule", 1, "_x"},
		{"Carol", "rule", 1, ""},
		{"Delta", "other", 1, "a:b"},
		{"Echo", "other", 1, "9"},
	}
}

type gram48 struct {
	alpha tok.Rule `name:"r_"`
	Bravo tok.Rule
	Carol tok.Rule `x:"" name:"r_"`
	Delta tok.Rule `json:"name"`
	Echo  tok.Rule
	Fox   string `name:"Value"`
}

func (g *gram48) Read(s *tok.Scanner) error { return nil }
func (g *gram48) What() string              { return "gram" }
func (g *gram48) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram48) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Carol, &g.Delta, &g.Echo} }
func (g *gram48) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "r_"},
		{"Bravo", "rule", 0, ""},
		{"Carol", "rule", 1, "r_"},
		{"Delta", "rule", 0, ""},
		{"Echo", "rule", 0, ""},
		{"Fox", "other", 1, "Value"},
	}
}

type gram49 struct {
}

func (g *gram49) Read(s *tok.Scanner) error { return nil }
func (g *gram49) What() string              { return "gram" }
func (g *gram49) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram49) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram49) fields() []field {
	return []field{}
}

type gram50 struct {
	Alpha tok.Rule `name:"a "`
}

func (g *gram50) Read(s *tok.Scanner) error { return nil }
func (g *gram50) What() string              { return "gram" }
func (g *gram50) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram50) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram50) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a "},
	}
}

type gram51 struct {
	Alpha tok.Rule `json:"j" name:"a_b"`
	Bravo tok.Rule `name:"Z"`
}

func (g *gram51) Read(s *tok.Scanner) error { return nil }
func (g *gram51) What() string              { return "gram" }
func (g *gram51) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram51) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo} }
func (g *gram51) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a_b"},
		{"Bravo", "rule", 1, "Z"},
	}
}

type gram52 struct {
	Alpha tok.Rule `name:"a "`
	Bravo tok.Rule `x:"" name:"a.b"`
	Carol tok.Rule `json:"j" name:"x1"`
}

func (g *gram52) Read(s *tok.Scanner) error { return nil }
func (g *gram52) What() string              { return "gram" }
func (g *gram52) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram52) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol} }
func (g *gram52) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a "},
		{"Bravo", "rule", 1, "a.b"},
		{"Carol", "rule", 1, "x1"},
	}
}

type gram53 struct {
	alpha tok.Rule   `name:"r_"`
	Bravo tok.Rule   `json:"j" name:"a:b"`
	Carol int        `name:"9"`
	Delta tok.Reader `name:"A{"`
}

func (g *gram53) Read(s *tok.Scanner) error { return nil }
func (g *gram53) What() string              { return "gram" }
func (g *gram53) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram53) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo} }
func (g *gram53) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "r_"},
		{"Bravo", "rule", 1, "a:b"},
		{"Carol", "other", 1, "9"},
		{"Delta", "other", 1, "A{"},
	}
}

type gram54 struct {
	Alpha tok.Rule `x:"" name:"r_"`
	Bravo tok.Rule `json:"name"`
	Carol tok.Rule `name:"x1"`
	Delta tok.Rule
	echo  tok.Rule `name:"r_"`
}

func (g *gram54) Read(s *tok.Scanner) error { return nil }
func (g *gram54) What() string              { return "gram" }
func (g *gram54) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram54) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta} }
func (g *gram54) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "r_"},
		{"Bravo", "rule", 0, ""},
		{"Carol", "rule", 1, "x1"},
		{"Delta", "rule", 0, ""},
		{"echo", "hidden", 1, "r_"},
	}
}

type gram55 struct {
	Alpha tok.Rule `name:"Value"`
	Bravo tok.Rule
	Carol tok.Rule
	Delta struct{ A tok.Rule } `x:"" name:"zZ9"`
	Echo  tok.Rule
	Fox   string `json:"j" name:"a.b"`
}

func (g *gram55) Read(s *tok.Scanner) error { return nil }
func (g *gram55) What() string              { return "gram" }
func (g *gram55) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram55) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Echo} }
func (g *gram55) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "Value"},
		{"Bravo", "rule", 0, ""},
		{"Carol", "rule", 0, ""},
		{"Delta", "other", 1, "zZ9"},
		{"Echo", "rule", 0, ""},
		{"Fox", "other", 1, "a.b"},
	}
}

type gram56 struct {
}

func (g *gram56) Read(s *tok.Scanner) error { return nil }
func (g *gram56) What() string              { return "gram" }
func (g *gram56) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram56) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram56) fields() []field {
	return []field{}
}

type gram57 struct {
	Alpha tok.Rule `x:"" name:"a"`
}

func (g *gram57) Read(s *tok.Scanner) error { return nil }
func (g *gram57) What() string              { return "gram" }
func (g *gram57) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram57) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram57) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a"},
	}
}

type gram58 struct {
	Alpha struct{ A tok.Rule } `x:"" name:"a.b"`
	Bravo tok.Rule             `name:"x1"`
}

func (g *gram58) Read(s *tok.Scanner) error { return nil }
func (g *gram58) What() string              { return "gram" }
func (g *gram58) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram58) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo} }
func (g *gram58) fields() []field {
	return []field{
		{"Alpha", "other", 1, "a.b"},
		{"Bravo", "rule", 1, "x1"},
	}
}

type gram59 struct {
	Alpha tok.Rule `json:"j" name:"w-"`
	Bravo tok.Rule `json:"j" name:"r_"`
	Carol tok.Rule `name:" a"`
}

func (g *gram59) Read(s *tok.Scanner) error { return nil }
func (g *gram59) What() string              { return "gram" }
func (g *gram59) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram59) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol} }
func (g *gram59) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "w-"},
		{"Bravo", "rule", 1, "r_"},
		{"Carol", "rule", 1, " a"},
	}
}

type gram60 struct {
	Alpha tok.Rule `x:"" name:"w-"`
	Bravo tok.Rule
	carol tok.Rule `x:"" name:"a+b"`
	Delta tok.Rule `x:"" name:"w-"`
}

func (g *gram60) Read(s *tok.Scanner) error { return nil }
func (g *gram60) What() string              { return "gram" }
func (g *gram60) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram60) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Delta} }
func (g *gram60) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "w-"},
		{"Bravo", "rule", 0, ""},
		{"carol", "hidden", 1, "a+b"},
		{"Delta", "rule", 1, "w-"},
	}
}

type gram61 struct {
	Alpha struct{ A tok.Rule } `json:"j" name:"w-"`
	Bravo tok.Rule             `name:"Value"`
	Carol tok.Rule             `x:"" name:"a.b"`
	Delta tok.Rule             `name:"a_b"`
	Echo  string               `name:"a+b"`
}

func (g *gram61) Read(s *tok.Scanner) error { return nil }
func (g *gram61) What() string              { return "gram" }
func (g *gram61) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram61) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo, &g.Carol, &g.Delta} }
func (g *gram61) fields() []field {
	return []field{
		{"Alpha", "other", 1, "w-"},
		{"Bravo", "rule", 1, "Value"},
		{"Carol", "rule", 1, "a.b"},
		{"Delta", "rule", 1, "a_b"},
		{"Echo", "other", 1, "a+b"},
	}
}

type gram62 struct {
	Alpha tok.Rule   `name:"a["`
	Bravo *tok.Rule  `name:"rule"`
	Carol string     `x:"" name:"."`
	Delta tok.Rule   `name:"a["`
	Echo  []tok.Rule `name:"a-b"`
	Fox   tok.Rule   `name:"+"`
}

func (g *gram62) Read(s *tok.Scanner) error { return nil }
func (g *gram62) What() string              { return "gram" }
func (g *gram62) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram62) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Delta, &g.Fox} }
func (g *gram62) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a["},
		{"Bravo", "other", 1, "rule"},
		{"Carol", "other", 1, "."},
		{"Delta", "rule", 1, "a["},
		{"Echo", "other", 1, "a-b"},
		{"Fox", "rule", 1, "+"},
	}
}

type gram63 struct {
}

func (g *gram63) Read(s *tok.Scanner) error { return nil }
func (g *gram63) What() string              { return "gram" }
func (g *gram63) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram63) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram63) fields() []field {
	return []field{}
}

type gram64 struct {
	Alpha tok.Rule
}

func (g *gram64) Read(s *tok.Scanner) error { return nil }
func (g *gram64) What() string              { return "gram" }
func (g *gram64) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram64) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram64) fields() []field {
	return []field{
		{"Alpha", "rule", 0, ""},
	}
}

type gram65 struct {
	alpha tok.Rule `name:"_x"`
	Bravo tok.Rule `name:"."`
}

func (g *gram65) Read(s *tok.Scanner) error { return nil }
func (g *gram65) What() string              { return "gram" }
func (g *gram65) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram65) rules() []*tok.Rule        { return []*tok.Rule{&g.Bravo} }
func (g *gram65) fields() []field {
	return []field{
		{"alpha", "hidden", 1, "_x"},
		{"Bravo", "rule", 1, "."},
	}
}

type gram66 struct {
	Alpha tok.Rule   `name:"a.b"`
	Bravo myRule     `name:"a"`
	Carol tok.Reader `json:"j" name:"q+"`
}

func (g *gram66) Read(s *tok.Scanner) error { return nil }
func (g *gram66) What() string              { return "gram" }
func (g *gram66) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram66) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram66) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "a.b"},
		{"Bravo", "other", 1, "a"},
		{"Carol", "other", 1, "q+"},
	}
}

type gram67 struct {
	Alpha tok.Rule             `json:"j" name:"rule"`
	Bravo struct{ A tok.Rule } `json:"j" name:"Z"`
	Carol tok.Rule             `x:"" name:"Value"`
	delta tok.Rule             `name:"q+"`
}

func (g *gram67) Read(s *tok.Scanner) error { return nil }
func (g *gram67) What() string              { return "gram" }
func (g *gram67) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram67) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha, &g.Carol} }
func (g *gram67) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "rule"},
		{"Bravo", "other", 1, "Z"},
		{"Carol", "rule", 1, "Value"},
		{"delta", "hidden", 1, "q+"},
	}
}

type gram68 struct {
	Alpha tok.Rule `x:"" name:"1a"`
	Bravo tok.Rule `name:"_x"`
	Carol tok.Rule `json:"j" name:"-a"`
	Delta tok.Rule `name:"a:b"`
	Echo  tok.Rule `name:"a/b"`
}

func (g *gram68) Read(s *tok.Scanner) error { return nil }
func (g *gram68) What() string              { return "gram" }
func (g *gram68) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram68) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo}
}
func (g *gram68) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "1a"},
		{"Bravo", "rule", 1, "_x"},
		{"Carol", "rule", 1, "-a"},
		{"Delta", "rule", 1, "a:b"},
		{"Echo", "rule", 1, "a/b"},
	}
}

type gram69 struct {
	Alpha tok.Rule `x:"" name:"Value"`
	Bravo tok.Rule `name:"a+b"`
	Carol tok.Rule
	Delta tok.Rule `name:"e."`
	Echo  tok.Rule
	Fox   tok.Rule `name:"r_"`
}

func (g *gram69) Read(s *tok.Scanner) error { return nil }
func (g *gram69) What() string              { return "gram" }
func (g *gram69) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram69) rules() []*tok.Rule {
	return []*tok.Rule{&g.Alpha, &g.Bravo, &g.Carol, &g.Delta, &g.Echo, &g.Fox}
}
func (g *gram69) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "Value"},
		{"Bravo", "rule", 1, "a+b"},
		{"Carol", "rule", 0, ""},
		{"Delta", "rule", 1, "e."},
		{"Echo", "rule", 0, ""},
		{"Fox", "rule", 1, "r_"},
	}
}

type gram70 struct {
}

func (g *gram70) Read(s *tok.Scanner) error { return nil }
func (g *gram70) What() string              { return "gram" }
func (g *gram70) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram70) rules() []*tok.Rule        { return []*tok.Rule{} }
func (g *gram70) fields() []field {
	return []field{}
}

type gram71 struct {
	Alpha tok.Rule `name:"x1"`
}

func (g *gram71) Read(s *tok.Scanner) error { return nil }
func (g *gram71) What() string              { return "gram" }
func (g *gram71) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram71) rules() []*tok.Rule        { return []*tok.Rule{&g.Alpha} }
func (g *gram71) fields() []field {
	return []field{
		{"Alpha", "rule", 1, "x1"},
	}
}

type gram72 struct {
	F000x tok.Rule             `name:"B2-c.d_e+f"`
	F001x myRule               `json:"j" name:"x1"`
	F002x tok.Rule             `json:"name"`
	F003x int                  `name:"a.b"`
	F004x struct{ A tok.Rule } `json:"j" name:"zZ9"`
	F005x tok.Rule             `x:"" name:"a-b"`
	F006x tok.Rule             `name:"zZ9"`
	F007x tok.Rule             `json:"j" name:"Value"`
	f008x tok.Rule             `x:"" name:"a+b"`
	F009x tok.Rule             `json:"j" name:"rule"`
	F010x tok.Rule             `json:"j" name:"Value"`
	F011x tok.Rule             `x:"" name:"Z"`
	F012x wrapRule             `json:"j" name:"w-"`
	F013x tok.Rule             `name:"a"`
	f014x tok.Rule             `json:"j" name:"r_"`
	F015x tok.Rule             `json:"j" name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	F016x tok.Rule             `name:"B2-c.d_e+f"`
	F017x tok.Rule             `x:"" name:"w-"`
	F018x string               `json:"name"`
	F019x tok.Rule
	F020x struct{ A tok.Rule } `name:"w-"`
	F021x tok.Rule             `json:"j" name:"w-"`
	F022x tok.Rule             `json:"j" name:"e."`
	F023x tok.Rule
	F024x tok.Reader
	F025x tok.Rule `json:"j" name:"r_"`
	F026x tok.Rule `name:"rule"`
	F027x tok.Rule `name:"a"`
	F028x wrapRule `name:"r_"`
	F029x tok.Rule `name:"a_b"`
}

func (g *gram72) Read(s *tok.Scanner) error { return nil }
func (g *gram72) What() string              { return "gram" }
func (g *gram72) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram72) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F002x, &g.F005x, &g.F006x, &g.F007x, &g.F009x, &g.F010x, &g.F011x, &g.F013x, &g.F015x, &g.F016x, &g.F017x, &g.F019x, &g.F021x, &g.F022x, &g.F023x, &g.F025x, &g.F026x, &g.F027x, &g.F029x}
}
func (g *gram72) fields() []field {
	return []field{
		{"F000x", "rule", 1, "B2-c.d_e+f"},
		{"F001x", "other", 1, "x1"},
		{"F002x", "rule", 0, ""},
		{"F003x", "other", 1, "a.b"},
		{"F004x", "other", 1, "zZ9"},
		{"F005x", "rule", 1, "a-b"},
		{"F006x", "rule", 1, "zZ9"},
		{"F007x", "rule", 1, "Value"},
		{"f008x", "hidden", 1, "a+b"},
		{"F009x", "rule", 1, "rule"},
		{"F010x", "rule", 1, "Value"},
		{"F011x", "rule", 1, "Z"},
		{"F012x", "other", 1, "w-"},
		{"F013x", "rule", 1, "a"},
		{"f014x", "hidden", 1, "r_"},
		{"F015x", "rule", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"F016x", "rule", 1, "B2-c.d_e+f"},
		{"F017x", "rule", 1, "w-"},
		{"F018x", "other", 0, ""},
		{"F019x", "rule", 0, ""},
		{"F020x", "other", 1, "w-"},
		{"F021x", "rule", 1, "w-"},
		{"F022x", "rule", 1, "e."},
		{"F023x", "rule", 0, ""},
		{"F024x", "other", 0, ""},
		{"F025x", "rule", 1, "r_"},
		{"F026x", "rule", 1, "rule"},
		{"F027x", "rule", 1, "a"},
		{"F028x", "other", 1, "r_"},
		{"F029x", "rule", 1, "a_b"},
	}
}

type gram73 struct {
	F000x tok.Rule `name:"a_b"`
	F001x tok.Rule
	F002x []tok.Rule `name:"a"`
	f003x tok.Rule   `json:"j" name:"a.b"`
	F004x tok.Rule   `name:"B2-c.d_e+f"`
	F005x tok.Reader `json:"j" name:"x1"`
	F006x tok.Rule   `json:"name"`
	F007x int
	F008x *tok.Rule `name:"Z"`
	F009x tok.Rule
	F010x tok.Rule `name:"a-b"`
	F011x tok.Rule `x:"" name:"e."`
	F012x tok.Rule `name:"zZ9"`
	F013x tok.Rule `name:"B2-c.d_e+f"`
	F014x tok.Rule `json:"j" name:"r_"`
	f015x tok.Rule `json:"j" name:"a"`
	F016x tok.Rule `name:"a"`
	F017x tok.Rule `x:"" name:"rule"`
	F018x tok.Rule
	F019x []tok.Rule `json:"j" name:"zZ9"`
	F020x tok.Rule   `name:"e."`
	F021x tok.Rule   `x:"" name:"Z"`
	F022x tok.Rule   `x:"" name:"r_"`
	F023x tok.Rule   `json:"j" name:"B2-c.d_e+f"`
	f024x tok.Rule
	F025x tok.Rule `name:"q+"`
	F026x tok.Rule `json:"j" name:"Z"`
	F027x tok.Rule `x:"" name:"Z"`
	F028x tok.Rule `name:"q+"`
	F029x tok.Rule `name:"a"`
	F030x tok.Rule `json:"j" name:"a_b"`
	F031x tok.Rule
	F032x tok.Rule `name:"r_"`
	F033x tok.Rule `name:"r_"`
	F034x tok.Rule `name:"r_"`
	F035x []tok.Rule
	F036x tok.Rule `json:"j" name:"r_"`
	F037x tok.Rule `name:"a_b"`
	F038x tok.Rule `name:"q+"`
	F039x tok.Rule
	F040x tok.Rule   `name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	F041x tok.Rule   `json:"name"`
	F042x tok.Rule   `name:"rule"`
	F043x tok.Rule   `json:"name"`
	F044x tok.Rule   `name:"rule"`
	F045x tok.Rule   `name:"a"`
	F046x *tok.Rule  `x:"" name:"Value"`
	F047x tok.Rule   `name:"Value"`
	F048x tok.Rule   `name:"q+"`
	f049x tok.Rule   `json:"j" name:"e."`
	F050x tok.Rule   `json:"j" name:"e."`
	F051x tok.Rule   `x:"" name:"zZ9"`
	f052x tok.Rule   `json:"name"`
	F053x tok.Rule   `json:"name"`
	F054x []tok.Rule `name:"a"`
	f055x tok.Rule   `json:"name"`
	F056x tok.Rule   `x:"" name:"e."`
	F057x tok.Rule   `x:"" name:"a+b"`
	f058x tok.Rule   `name:"w-"`
	F059x tok.Rule   `name:"a.b"`
	F060x tok.Rule   `x:"" name:"a-b"`
	F061x tok.Rule   `x:"" name:"w-"`
	F062x tok.Rule   `name:"rule"`
	F063x tok.Rule
	F064x tok.Rule `json:"j" name:"a_b"`
	f065x tok.Rule `x:"" name:"Z"`
	F066x tok.Rule `name:"B2-c.d_e+f"`
	F067x tok.Rule `name:"e."`
	f068x tok.Rule `json:"name"`
	F069x int      `x:"" name:"a-b"`
	F070x tok.Rule `json:"name"`
	f071x tok.Rule `name:"a+b"`
	F072x tok.Rule
	F073x tok.Rule  `x:"" name:"e."`
	F074x tok.Rule  `x:"" name:"Value"`
	F075x tok.Rule  `name:"q+"`
	F076x *tok.Rule `name:"zZ9"`
	F077x tok.Rule  `name:"q+"`
	F078x tok.Rule  `name:"a.b"`
	F079x tok.Rule  `x:"" name:"a_b"`
}

func (g *gram73) Read(s *tok.Scanner) error { return nil }
func (g *gram73) What() string              { return "gram" }
func (g *gram73) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram73) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F001x, &g.F004x, &g.F006x, &g.F009x, &g.F010x, &g.F011x, &g.F012x, &g.F013x, &g.F014x, &g.F016x, &g.F017x, &g.F018x, &g.F020x, &g.F021x, &g.F022x, &g.F023x, &g.F025x, &g.F026x, &g.F027x, &g.F028x, &g.F029x, &g.F030x, &g.F031x, &g.F032x, &g.F033x, &g.F034x, &g.F036x, &g.F037x, &g.F038x, &g.F039x, &g.F040x, &g.F041x, &g.F042x, &g.F043x, &g.F044x, &g.F045x, &g.F047x, &g.F048x, &g.F050x, &g.F051x, &g.F053x, &g.F056x, &g.F057x, &g.F059x, &g.F060x, &g.F061x, &g.F062x, &g.F063x, &g.F064x, &g.F066x, &g.F067x, &g.F070x, &g.F072x, &g.F073x, &g.F074x, &g.F075x, &g.F077x, &g.F078x, &g.F079x}
}
func (g *gram73) fields() []field {
	return []field{
		{"F000x", "rule", 1, "a_b"},
		{"F001x", "rule", 0, ""},
		{"F002x", "other", 1, "a"},
		{"f003x", "hidden", 1, "a.b"},
		{"F004x", "rule", 1, "B2-c.d_e+f"},
		{"F005x", "other", 1, "x1"},
		{"F006x", "rule", 0, ""},
		{"F007x", "other", 0, ""},
		{"F008x", "other", 1, "Z"},
		{"F009x", "rule", 0, ""},
		{"F010x", "rule", 1, "a-b"},
		{"F011x", "rule", 1, "e."},
		{"F012x", "rule", 1, "zZ9"},
		{"F013x", "rule", 1, "B2-c.d_e+f"},
		{"F014x", "rule", 1, "r_"},
		{"f015x", "hidden", 1, "a"},
		{"F016x", "rule", 1, "a"},
		{"F017x", "rule", 1, "rule"},
		{"F018x", "rule", 0, ""},
		{"F019x", "other", 1, "zZ9"},
		{"F020x", "rule", 1, "e."},
		{"F021x", "rule", 1, "Z"},
		{"F022x", "rule", 1, "r_"},
		{"F023x", "rule", 1, "B2-c.d_e+f"},
		{"f024x", "hidden", 0, ""},
		{"F025x", "rule", 1, "q+"},
		{"F026x", "rule", 1, "Z"},
		{"F027x", "rule", 1, "Z"},
		{"F028x", "rule", 1, "q+"},
		{"F029x", "rule", 1, "a"},
		{"F030x", "rule", 1, "a_b"},
		{"F031x", "rule", 0, ""},
		{"F032x", "rule", 1, "r_"},
		{"F033x", "rule", 1, "r_"},
		{"F034x", "rule", 1, "r_"},
		{"F035x", "other", 0, ""},
		{"F036x", "rule", 1, "r_"},
		{"F037x", "rule", 1, "a_b"},
		{"F038x", "rule", 1, "q+"},
		{"F039x", "rule", 0, ""},
		{"F040x", "rule", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"F041x", "rule", 0, ""},
		{"F042x", "rule", 1, "rule"},
		{"F043x", "rule", 0, ""},
		{"F044x", "rule", 1, "rule"},
		{"F045x", "rule", 1, "a"},
		{"F046x", "other", 1, "Value"},
		{"F047x", "rule", 1, "Value"},
		{"F048x", "rule", 1, "q+"},
		{"f049x", "hidden", 1, "e."},
		{"F050x", "rule", 1, "e."},
		{"F051x", "rule", 1, "zZ9"},
		{"f052x", "hidden", 0, ""},
		{"F053x", "rule", 0, ""},
		{"F054x", "other", 1, "a"},
		{"f055x", "hidden", 0, ""},
		{"F056x", "rule", 1, "e."},
		{"F057x", "rule", 1, "a+b"},
		{"f058x", "hidden", 1, "w-"},
		{"F059x", "rule", 1, "a.b"},
		{"F060x", "rule", 1, "a-b"},
		{"F061x", "rule", 1, "w-"},
		{"F062x", "rule", 1, "rule"},
		{"F063x", "rule", 0, ""},
		{"F064x", "rule", 1, "a_b"},
		{"f065x", "hidden", 1, "Z"},
		{"F066x", "rule", 1, "B2-c.d_e+f"},
		{"F067x", "rule", 1, "e."},
		{"f068x", "hidden", 0, ""},
		{"F069x", "other", 1, "a-b"},
		{"F070x", "rule", 0, ""},
		{"f071x", "hidden", 1, "a+b"},
		{"F072x", "rule", 0, ""},
		{"F073x", "rule", 1, "e."},
		{"F074x", "rule", 1, "Value"},
		{"F075x", "rule", 1, "q+"},
		{"F076x", "other", 1, "zZ9"},
		{"F077x", "rule", 1, "q+"},
		{"F078x", "rule", 1, "a.b"},
		{"F079x", "rule", 1, "a_b"},
	}
}

type gram74 struct {
	F000x tok.Rule `json:"j" name:"q+"`
	f001x tok.Rule `name:"w-"`
	F002x tok.Rule `json:"j" name:"Value"`
	F003x tok.Rule `name:"a+b"`
	f004x tok.Rule
	F005x tok.Rule `x:"" name:"e."`
	F006x myRule   `json:"name"`
	F007x tok.Rule `name:"Z"`
	f008x tok.Rule `name:"Value"`
	F009x tok.Rule
	F010x myRule   `x:"" name:"rule"`
	F011x tok.Rule `x:"" name:"a+b"`
	F012x tok.Rule `name:"e."`
	F013x tok.Rule `x:"" name:"q+"`
	F014x tok.Rule `name:"zZ9"`
	F015x string   `name:"rule"`
	F016x tok.Rule `json:"j" name:"a-b"`
	F017x tok.Rule `json:"j" name:"Z"`
	F018x tok.Rule `name:"q+"`
	F019x tok.Rule `name:"Z"`
	F020x wrapRule
	F021x tok.Rule `x:"" name:"w-"`
	F022x tok.Rule `name:"Value"`
	F023x string
	F024x tok.Rule `name:"B2-c.d_e+f"`
	F025x tok.Rule
	F026x wrapRule `name:"a-b"`
	F027x tok.Rule `name:"w-"`
	F028x tok.Rule `name:"e."`
	F029x wrapRule `name:"a_b"`
	F030x tok.Rule `json:"j" name:"w-"`
	F031x tok.Rule `json:"j" name:"x1"`
	F032x tok.Rule `name:"a+b"`
	F033x tok.Rule `name:"zZ9"`
	F034x tok.Rule `name:"a-b"`
	F035x tok.Rule `json:"j" name:"e."`
	F036x tok.Rule `x:"" name:"Value"`
	F037x tok.Rule `name:"rule"`
	f038x tok.Rule `name:"Z"`
	F039x tok.Rule `name:"Z"`
	F040x tok.Rule
	F041x struct{ A tok.Rule } `name:"Value"`
	F042x wrapRule
	F043x string     `json:"j" name:"r_"`
	F044x tok.Rule   `x:"" name:"a-b"`
	F045x []tok.Rule `name:"q+"`
	F046x tok.Rule   `x:"" name:"Z"`
	F047x tok.Rule   `json:"j" name:"x1"`
	F048x tok.Rule   `json:"j" name:"B2-c.d_e+f"`
	f049x tok.Rule   `json:"j" name:"Value"`
	F050x tok.Rule   `x:"" name:"Value"`
	F051x tok.Rule   `json:"name"`
	f052x tok.Rule
	F053x tok.Rule `name:"zZ9"`
	F054x tok.Rule `x:"" name:"a_b"`
	F055x tok.Rule `json:"name"`
	f056x tok.Rule `name:"zZ9"`
	F057x tok.Rule `name:"a"`
	F058x tok.Rule
	F059x tok.Rule
	F060x tok.Rule   `name:"r_"`
	F061x []tok.Rule `name:"zZ9"`
	F062x string
	F063x tok.Rule `name:"B2-c.d_e+f"`
	F064x tok.Rule `json:"name"`
	F065x tok.Rule `json:"j" name:"a-b"`
	F066x tok.Rule
	F067x tok.Rule `json:"name"`
	F068x tok.Rule `x:"" name:"a-b"`
	F069x tok.Rule `name:"x1"`
	F070x tok.Rule
	F071x tok.Rule `x:"" name:"a-b"`
	F072x string
	f073x tok.Rule `name:"r_"`
	F074x tok.Rule `x:"" name:"a_b"`
	F075x tok.Rule `json:"j" name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	F076x tok.Rule `json:"j" name:"w-"`
	F077x tok.Rule
	F078x tok.Rule   `x:"" name:"rule"`
	F079x string     `name:"zZ9"`
	F080x tok.Rule   `json:"j" name:"Value"`
	F081x *tok.Rule  `json:"name"`
	F082x tok.Rule   `name:"r_"`
	F083x tok.Rule   `name:"e."`
	F084x tok.Reader `name:"a-b"`
	F085x tok.Rule   `x:"" name:"a"`
	F086x tok.Rule   `name:"zZ9"`
	F087x tok.Rule
	F088x tok.Rule  `name:"e."`
	F089x wrapRule  `json:"j" name:"r_"`
	F090x tok.Rule  `x:"" name:"zZ9"`
	F091x tok.Rule  `x:"" name:"zZ9"`
	F092x tok.Rule  `name:"a_b"`
	F093x tok.Rule  `name:"a+b"`
	F094x *tok.Rule `name:"a_b"`
	f095x tok.Rule  `json:"j" name:"Z"`
	F096x tok.Rule
	F097x string   `json:"j" name:"a"`
	F098x tok.Rule `json:"j" name:"a+b"`
	F099x tok.Rule `name:"a"`
	F100x tok.Rule `json:"j" name:"q+"`
	F101x tok.Rule `x:"" name:"Z"`
	F102x tok.Rule `name:"a+b"`
	F103x tok.Rule
	F104x tok.Rule
	F105x tok.Rule `name:"a"`
	F106x tok.Rule `name:"rule"`
	f107x tok.Rule `name:"q+"`
	F108x tok.Rule
	F109x tok.Rule             `name:"a.b"`
	F110x tok.Rule             `x:"" name:"a+b"`
	F111x tok.Rule             `json:"j" name:"w-"`
	F112x *tok.Rule            `name:"a_b"`
	F113x tok.Rule             `json:"name"`
	F114x tok.Rule             `name:"w-"`
	F115x tok.Rule             `json:"j" name:"a"`
	F116x tok.Rule             `x:"" name:"w-"`
	F117x tok.Rule             `json:"j" name:"rule"`
	F118x tok.Rule             `name:"Value"`
	F119x tok.Rule             `name:"a_b"`
	F120x tok.Rule             `name:"a_b"`
	F121x tok.Rule             `x:"" name:"r_"`
	F122x struct{ A tok.Rule } `json:"j" name:"a"`
	F123x tok.Rule             `x:"" name:"Value"`
	F124x tok.Rule
	F125x tok.Rule   `name:"e."`
	F126x *tok.Rule  `json:"j" name:"e."`
	F127x tok.Rule   `name:"w-"`
	F128x tok.Rule   `name:"Z"`
	F129x tok.Rule   `x:"" name:"a_b"`
	F130x []tok.Rule `json:"j" name:"a"`
	F131x tok.Rule   `name:"x1"`
	F132x tok.Rule   `x:"" name:"a"`
	F133x tok.Rule   `name:"Z"`
	F134x tok.Rule   `json:"j" name:"Z"`
	F135x tok.Reader `json:"name"`
	F136x tok.Rule   `x:"" name:"rule"`
	F137x []tok.Rule `name:"Value"`
	F138x tok.Rule   `x:"" name:"rule"`
	F139x tok.Rule   `name:"B2-c.d_e+f"`
	F140x tok.Rule   `json:"j" name:"r_"`
	F141x tok.Rule   `name:"Z"`
	F142x tok.Rule   `name:"Z"`
	F143x int        `name:"B2-c.d_e+f"`
	F144x tok.Rule   `name:"x1"`
	F145x tok.Rule
	F146x tok.Rule `name:"a-b"`
	F147x tok.Rule `name:"Z"`
	F148x tok.Rule
	F149x tok.Rule
}

func (g *gram74) Read(s *tok.Scanner) error { return nil }
func (g *gram74) What() string              { return "gram" }
func (g *gram74) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram74) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F002x, &g.F003x, &g.F005x, &g.F007x, &g.F009x, &g.F011x, &g.F012x, &g.F013x, &g.F014x, &g.F016x, &g.F017x, &g.F018x, &g.F019x, &g.F021x, &g.F022x, &g.F024x, &g.F025x, &g.F027x, &g.F028x, &g.F030x, &g.F031x, &g.F032x, &g.F033x, &g.F034x, &g.F035x, &g.F036x, &g.F037x, &g.F039x, &g.F040x, &g.F044x, &g.F046x, &g.F047x, &g.F048x, &g.F050x, &g.F051x, &g.F053x, &g.F054x, &g.F055x, &g.F057x, &g.F058x, &g.F059x, &g.F060x, &g.F063x, &g.F064x, &g.F065x, &g.F066x, &g.F067x, &g.F068x, &g.F069x, &g.F070x, &g.F071x, &g.F074x, &g.F075x, &g.F076x, &g.F077x, &g.F078x, &g.F080x, &g.F082x, &g.F083x, &g.F085x, &g.F086x, &g.F087x, &g.F088x, &g.F090x, &g.F091x, &g.F092x, &g.F093x, &g.F096x, &g.F098x, &g.F099x, &g.F100x, &g.F101x, &g.F102x, &g.F103x, &g.F104x, &g.F105x, &g.F106x, &g.F108x, &g.F109x, &g.F110x, &g.F111x, &g.F113x, &g.F114x, &g.F115x, &g.F116x, &g.F117x, &g.F118x, &g.F119x, &g.F120x, &g.F121x, &g.F123x, &g.F124x, &g.F125x, &g.F127x, &g.F128x, &g.F129x, &g.F131x, &g.F132x, &g.F133x, &g.F134x, &g.F136x, &g.F138x, &g.F139x, &g.F140x, &g.F141x, &g.F142x, &g.F144x, &g.F145x, &g.F146x, &g.F147x, &g.F148x, &g.F149x}
}
func (g *gram74) fields() []field {
	return []field{
		{"F000x", "rule", 1, "q+"},
		{"f001x", "hidden", 1, "w-"},
		{"F002x", "rule", 1, "Value"},
		{"F003x", "rule", 1, "a+b"},
		{"f004x", "hidden", 0, ""},
		{"F005x", "rule", 1, "e."},
		{"F006x", "other", 0, ""},
		{"F007x", "rule", 1, "Z"},
		{"f008x", "hidden", 1, "Value"},
		{"F009x", "rule", 0, ""},
		{"F010x", "other", 1, "rule"},
		{"F011x", "rule", 1, "a+b"},
		{"F012x", "rule", 1, "e."},
		{"F013x", "rule", 1, "q+"},
		{"F014x", "rule", 1, "zZ9"},
		{"F015x", "other", 1, "rule"},
		{"F016x", "rule", 1, "a-b"},
		{"F017x", "rule", 1, "Z"},
		{"F018x", "rule", 1, "q+"},
		{"F019x", "rule", 1, "Z"},
		{"F020x", "other", 0, ""},
		{"F021x", "rule", 1, "w-"},
		{"F022x", "rule", 1, "Value"},
		{"F023x", "other", 0, ""},
		{"F024x", "rule", 1, "B2-c.d_e+f"},
		{"F025x", "rule", 0, ""},
		{"F026x", "other", 1, "a-b"},
		{"F027x", "rule", 1, "w-"},
		{"F028x", "rule", 1, "e."},
		{"F029x", "other", 1, "a_b"},
		{"F030x", "rule", 1, "w-"},
		{"F031x", "rule", 1, "x1"},
		{"F032x", "rule", 1, "a+b"},
		{"F033x", "rule", 1, "zZ9"},
		{"F034x", "rule", 1, "a-b"},
		{"F035x", "rule", 1, "e."},
		{"F036x", "rule", 1, "Value"},
		{"F037x", "rule", 1, "rule"},
		{"f038x", "hidden", 1, "Z"},
		{"F039x", "rule", 1, "Z"},
		{"F040x", "rule", 0, ""},
		{"F041x", "other", 1, "Value"},
		{"F042x", "other", 0, ""},
		{"F043x", "other", 1, "r_"},
		{"F044x", "rule", 1, "a-b"},
		{"F045x", "other", 1, "q+"},
		{"F046x", "rule", 1, "Z"},
		{"F047x", "rule", 1, "x1"},
		{"F048x", "rule", 1, "B2-c.d_e+f"},
		{"f049x", "hidden", 1, "Value"},
		{"F050x", "rule", 1, "Value"},
		{"F051x", "rule", 0, ""},
		{"f052x", "hidden", 0, ""},
		{"F053x", "rule", 1, "zZ9"},
		{"F054x", "rule", 1, "a_b"},
		{"F055x", "rule", 0, ""},
		{"f056x", "hidden", 1, "zZ9"},
		{"F057x", "rule", 1, "a"},
		{"F058x", "rule", 0, ""},
		{"F059x", "rule", 0, ""},
		{"F060x", "rule", 1, "r_"},
		{"F061x", "other", 1, "zZ9"},
		{"F062x", "other", 0, ""},
		{"F063x", "rule", 1, "B2-c.d_e+f"},
		{"F064x", "rule", 0, ""},
		{"F065x", "rule", 1, "a-b"},
		{"F066x", "rule", 0, ""},
		{"F067x", "rule", 0, ""},
		{"F068x", "rule", 1, "a-b"},
		{"F069x", "rule", 1, "x1"},
		{"F070x", "rule", 0, ""},
		{"F071x", "rule", 1, "a-b"},
		{"F072x", "other", 0, ""},
		{"f073x", "hidden", 1, "r_"},
		{"F074x", "rule", 1, "a_b"},
		{"F075x", "rule", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"F076x", "rule", 1, "w-"},
		{"F077x", "rule", 0, ""},
		{"F078x", "rule", 1, "rule"},
		{"F079x", "other", 1, "zZ9"},
		{"F080x", "rule", 1, "Value"},
		{"F081x", "other", 0, ""},
		{"F082x", "rule", 1, "r_"},
		{"F083x", "rule", 1, "e."},
		{"F084x", "other", 1, "a-b"},
		{"F085x", "rule", 1, "a"},
		{"F086x", "rule", 1, "zZ9"},
		{"F087x", "rule", 0, ""},
		{"F088x", "rule", 1, "e."},
		{"F089x", "other", 1, "r_"},
		{"F090x", "rule", 1, "zZ9"},
		{"F091x", "rule", 1, "zZ9"},
		{"F092x", "rule", 1, "a_b"},
		{"F093x", "rule", 1, "a+b"},
		{"F094x", "other", 1, "a_b"},
		{"f095x", "hidden", 1, "Z"},
		{"F096x", "rule", 0, ""},
		{"F097x", "other", 1, "a"},
		{"F098x", "rule", 1, "a+b"},
		{"F099x", "rule", 1, "a"},
		{"F100x", "rule", 1, "q+"},
		{"F101x", "rule", 1, "Z"},
		{"F102x", "rule", 1, "a+b"},
		{"F103x", "rule", 0, ""},
		{"F104x", "rule", 0, ""},
		{"F105x", "rule", 1, "a"},
		{"F106x", "rule", 1, "rule"},
		{"f107x", "hidden", 1, "q+"},
		{"F108x", "rule", 0, ""},
		{"F109x", "rule", 1, "a.b"},
		{"F110x", "rule", 1, "a+b"},
		{"F111x", "rule", 1, "w-"},
		{"F112x", "other", 1, "a_b"},
		{"F113x", "rule", 0, ""},
		{"F114x", "rule", 1, "w-"},
		{"F115x", "rule", 1, "a"},
		{"F116x", "rule", 1, "w-"},
		{"F117x", "rule", 1, "rule"},
		{"F118x", "rule", 1, "Value"},
		{"F119x", "rule", 1, "a_b"},
		{"F120x", "rule", 1, "a_b"},
		{"F121x", "rule", 1, "r_"},
		{"F122x", "other", 1, "a"},
		{"F123x", "rule", 1, "Value"},
		{"F124x", "rule", 0, ""},
		{"F125x", "rule", 1, "e."},
		{"F126x", "other", 1, "e."},
		{"F127x", "rule", 1, "w-"},
		{"F128x", "rule", 1, "Z"},
		{"F129x", "rule", 1, "a_b"},
		{"F130x", "other", 1, "a"},
		{"F131x", "rule", 1, "x1"},
		{"F132x", "rule", 1, "a"},
		{"F133x", "rule", 1, "Z"},
		{"F134x", "rule", 1, "Z"},
		{"F135x", "other", 0, ""},
		{"F136x", "rule", 1, "rule"},
		{"F137x", "other", 1, "Value"},
		{"F138x", "rule", 1, "rule"},
		{"F139x", "rule", 1, "B2-c.d_e+f"},
		{"F140x", "rule", 1, "r_"},
		{"F141x", "rule", 1, "Z"},
		{"F142x", "rule", 1, "Z"},
		{"F143x", "other", 1, "B2-c.d_e+f"},
		{"F144x", "rule", 1, "x1"},
		{"F145x", "rule", 0, ""},
		{"F146x", "rule", 1, "a-b"},
		{"F147x", "rule", 1, "Z"},
		{"F148x", "rule", 0, ""},
		{"F149x", "rule", 0, ""},
	}
}

type gram75 struct {
	F000x tok.Rule
	F001x *tok.Rule `name:"q+"`
	F002x tok.Rule  `json:"j" name:"a-b"`
	F003x string    `x:"" name:"B2-c.d_e+f"`
	F004x tok.Rule  `json:"j" name:"a"`
	F005x tok.Rule  `name:"a-b"`
	F006x tok.Rule
	F007x tok.Rule `json:"j" name:"r_"`
	F008x tok.Rule `x:"" name:"zZ9"`
	F009x tok.Rule `json:"j" name:"e."`
	F010x tok.Rule `name:"q+"`
	F011x tok.Rule `name:"a"`
	F012x tok.Rule
	F013x tok.Rule `name:"a.b"`
	F014x tok.Rule `json:"name"`
	F015x tok.Rule `name:"q+"`
	F016x tok.Rule `x:"" name:"r_"`
	f017x tok.Rule
	F018x tok.Rule `x:"" name:"B2-c.d_e+f"`
	f019x tok.Rule
	F020x []tok.Rule
	F021x *tok.Rule `name:"a-b"`
	F022x tok.Rule
	f023x tok.Rule             `name:"q+"`
	F024x tok.Rule             `json:"j" name:"e."`
	F025x tok.Rule             `json:"j" name:"B2-c.d_e+f"`
	F026x struct{ A tok.Rule } `json:"j" name:"e."`
	f027x tok.Rule             `json:"j" name:"a-b"`
	F028x struct{ A tok.Rule } `name:"w-"`
	F029x tok.Rule             `name:"a_b"`
	F030x tok.Rule             `name:"x1"`
	F031x tok.Rule             `name:"rule"`
	F032x tok.Rule             `json:"j" name:"e."`
	f033x tok.Rule             `json:"j" name:"q+"`
	F034x tok.Rule
	F035x tok.Rule `json:"j" name:"a"`
	F036x tok.Rule `x:"" name:"x1"`
	F037x tok.Rule `name:"e."`
	F038x tok.Rule
	F039x tok.Rule
	F040x tok.Rule `name:"B2-c.d_e+f"`
	F041x myRule   `json:"j" name:"a_b"`
	F042x tok.Rule `json:"j" name:"Z"`
	F043x tok.Rule `name:"a_b"`
	F044x int      `name:"a_b"`
	F045x tok.Rule
	F046x tok.Rule `name:"w-"`
	F047x tok.Rule
	f048x tok.Rule `json:"name"`
	F049x tok.Rule
	F050x tok.Rule `name:"w-"`
	F051x tok.Rule `json:"j" name:"a-b"`
	F052x int      `name:"a"`
	F053x tok.Rule `name:"zZ9"`
	F054x int      `name:"r_"`
	F055x tok.Rule `name:"a+b"`
	F056x tok.Rule
	F057x tok.Rule `name:"r_"`
	F058x tok.Rule `name:"a-b"`
	F059x tok.Rule `name:"q+"`
	F060x tok.Rule
	F061x tok.Rule `json:"j" name:"zZ9"`
	F062x tok.Rule `name:"a.b"`
	F063x tok.Rule `name:"rule"`
	F064x tok.Rule `json:"name"`
	f065x tok.Rule `name:"x1"`
	F066x tok.Rule `json:"j" name:"rule"`
	F067x tok.Rule
	F068x []tok.Rule `name:"a.b"`
	F069x tok.Rule   `json:"j" name:"x1"`
	F070x tok.Rule
	F071x string   `name:"a.b"`
	F072x tok.Rule `x:"" name:"a_b"`
	F073x tok.Rule `x:"" name:"w-"`
	F074x []tok.Rule
	F075x tok.Rule
	F076x tok.Rule `name:"Value"`
	F077x tok.Rule `name:"e."`
	F078x tok.Rule
	f079x tok.Rule
	F080x tok.Rule `json:"name"`
	F081x tok.Rule `json:"j" name:"zZ9"`
	F082x tok.Rule `x:"" name:"e."`
	F083x wrapRule
	F084x tok.Rule   `x:"" name:"rule"`
	F085x tok.Reader `json:"name"`
	F086x tok.Rule   `x:"" name:"a+b"`
	F087x tok.Rule   `name:"a.b"`
	F088x tok.Rule   `name:"B2-c.d_e+f"`
	F089x tok.Rule   `json:"j" name:"a"`
	F090x tok.Rule
	F091x tok.Rule `json:"j" name:"Value"`
	F092x tok.Rule `json:"name"`
	F093x tok.Rule `json:"j" name:"x1"`
	f094x tok.Rule `json:"name"`
	F095x tok.Rule `json:"name"`
	F096x tok.Rule `json:"name"`
	F097x wrapRule
	F098x tok.Rule `name:"a-b"`
	F099x tok.Rule `json:"j" name:"r_"`
	F100x tok.Rule `json:"j" name:"rule"`
	F101x tok.Rule `x:"" name:"B2-c.d_e+f"`
	F102x tok.Rule `json:"j" name:"a+b"`
	F103x tok.Rule `name:"a.b"`
	F104x tok.Rule `json:"j" name:"Z"`
	F105x tok.Rule `name:"a.b"`
	F106x tok.Rule `json:"j" name:"r_"`
	F107x tok.Rule
	F108x tok.Rule `x:"" name:"a+b"`
	F109x tok.Rule
	F110x tok.Rule  `json:"j" name:"q+"`
	F111x tok.Rule  `x:"" name:"a.b"`
	F112x tok.Rule  `json:"j" name:"a-b"`
	F113x tok.Rule  `json:"j" name:"r_"`
	F114x tok.Rule  `json:"j" name:"r_"`
	F115x tok.Rule  `json:"name"`
	F116x tok.Rule  `name:"a-b"`
	F117x tok.Rule  `x:"" name:"r_"`
	F118x *tok.Rule `name:"rule"`
	F119x tok.Rule  `json:"j" name:"zZ9"`
	F120x tok.Rule  `name:"a_b"`
	f121x tok.Rule  `name:"q+"`
	F122x tok.Rule  `x:"" name:"a-b"`
	F123x tok.Rule  `name:"a"`
	F124x tok.Rule  `name:"a+b"`
	F125x tok.Rule  `name:"e."`
	F126x tok.Rule  `name:"Value"`
	F127x tok.Rule  `name:"Z"`
	F128x string    `name:"Z"`
	F129x struct{ A tok.Rule }
	F130x tok.Rule `json:"name"`
	f131x tok.Rule `json:"j" name:"w-"`
	F132x tok.Rule `name:"x1"`
	F133x tok.Rule `name:"a-b"`
	F134x tok.Rule
	F135x tok.Rule `name:"x1"`
	F136x tok.Rule `name:"a"`
	F137x wrapRule `json:"j" name:"a"`
	F138x tok.Rule `name:"x1"`
	F139x *tok.Rule
	F140x tok.Rule `x:"" name:"r_"`
	F141x tok.Rule `name:"a_b"`
	F142x tok.Rule
	F143x tok.Rule
	F144x wrapRule   `x:"" name:"rule"`
	F145x tok.Reader `x:"" name:"q+"`
	F146x tok.Rule   `json:"name"`
	F147x *tok.Rule  `name:"a_b"`
	F148x tok.Reader `name:"a.b"`
	F149x wrapRule   `name:"zZ9"`
	f150x tok.Rule   `name:"e."`
	F151x tok.Rule   `x:"" name:"a_b"`
	F152x tok.Reader `json:"j" name:"a_b"`
	f153x tok.Rule   `name:"a.b"`
	F154x tok.Rule   `name:"Value"`
	f155x tok.Rule   `x:"" name:"e."`
	F156x tok.Rule   `x:"" name:"a+b"`
	F157x tok.Rule
	F158x myRule `x:"" name:"a_b"`
	F159x tok.Rule
	F160x struct{ A tok.Rule } `name:"x1"`
	F161x tok.Rule             `name:"q+"`
	F162x tok.Rule             `json:"j" name:"a+b"`
	F163x tok.Rule             `name:"x1"`
	F164x tok.Rule             `json:"j" name:"Value"`
	F165x tok.Rule             `x:"" name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	f166x tok.Rule             `json:"name"`
	F167x tok.Rule
	f168x tok.Rule `json:"j" name:"Value"`
	F169x tok.Rule `x:"" name:"Z"`
	F170x tok.Rule
	F171x []tok.Rule `json:"j" name:"Z"`
	f172x tok.Rule
	F173x tok.Rule
	F174x tok.Reader `name:"a-b"`
	F175x wrapRule   `x:"" name:"a_b"`
	F176x tok.Rule   `json:"j" name:"zZ9"`
	F177x tok.Rule
	F178x tok.Reader `name:"a.b"`
	F179x tok.Rule   `json:"j" name:"a.b"`
	F180x tok.Rule   `json:"j" name:"q+"`
	F181x tok.Rule   `name:"e."`
	F182x tok.Rule
	f183x tok.Rule `x:"" name:"a-b"`
	F184x tok.Rule `name:"q+"`
	F185x tok.Rule `name:"rule"`
	F186x []tok.Rule
	F187x int                  `x:"" name:"zZ9"`
	F188x tok.Rule             `name:"e."`
	F189x struct{ A tok.Rule } `name:"a-b"`
	F190x tok.Rule             `name:"rule"`
	F191x tok.Rule             `json:"j" name:"e."`
	F192x tok.Rule             `name:"r_"`
	f193x tok.Rule
	F194x tok.Rule `x:"" name:"x1"`
	F195x tok.Rule `name:"a.b"`
	F196x myRule   `x:"" name:"Z"`
	F197x tok.Rule `name:"q+"`
	F198x tok.Rule `json:"j" name:"B2-c.d_e+f"`
	f199x tok.Rule
	F200x tok.Rule
	F201x tok.Rule `name:"e."`
	F202x tok.Rule `name:"B2-c.d_e+f"`
	f203x tok.Rule `name:"a_b"`
	F204x tok.Rule
	F205x tok.Rule `name:"x1"`
	f206x tok.Rule `json:"j" name:"w-"`
	F207x tok.Rule `name:"Value"`
	F208x tok.Rule `name:"B2-c.d_e+f"`
	F209x tok.Rule
	F210x myRule   `x:"" name:"x1"`
	F211x tok.Rule `name:"zZ9"`
	F212x tok.Rule `x:"" name:"x1"`
	F213x tok.Rule `json:"j" name:"q+"`
	F214x tok.Rule
	F215x tok.Rule `x:"" name:"r_"`
	F216x tok.Rule `json:"j" name:"x1"`
	F217x tok.Rule
	F218x tok.Rule   `json:"name"`
	F219x *tok.Rule  `name:"a+b"`
	F220x tok.Rule   `name:"x1"`
	F221x tok.Reader `name:"a+b"`
	F222x int        `json:"name"`
	F223x tok.Rule   `name:"a-b"`
	F224x tok.Rule   `x:"" name:"a.b"`
	F225x tok.Rule   `name:"a-b"`
	F226x string     `name:"a+b"`
	F227x tok.Rule   `json:"name"`
	f228x tok.Rule   `json:"j" name:"q+"`
	F229x tok.Rule   `name:"a+b"`
	F230x tok.Rule   `name:"w-"`
	F231x tok.Rule   `name:"r_"`
	f232x tok.Rule   `x:"" name:"rule"`
	F233x tok.Rule   `name:"a-b"`
	F234x tok.Rule   `x:"" name:"q+"`
	f235x tok.Rule   `json:"name"`
	F236x tok.Rule   `name:"Value"`
	F237x tok.Rule   `name:"r_"`
	F238x tok.Rule   `name:"w-"`
	F239x tok.Rule   `json:"j" name:"rule"`
	F240x tok.Rule   `x:"" name:"e."`
	F241x tok.Rule   `name:"Value"`
	F242x tok.Rule   `json:"j" name:"e."`
	F243x tok.Rule   `name:"Z"`
	F244x tok.Rule   `name:"e."`
	F245x tok.Rule   `name:"a"`
	F246x tok.Rule   `json:"j" name:"a+b"`
	F247x tok.Rule
	F248x tok.Rule `name:"Value"`
	F249x tok.Rule `json:"j" name:"a+b"`
	F250x tok.Rule `json:"j" name:"a"`
	F251x tok.Rule `name:"x1"`
	F252x tok.Rule `name:"e."`
	F253x tok.Rule `json:"name"`
	F254x tok.Rule `name:"Z"`
	F255x tok.Rule `x:"" name:"a_b"`
	F256x tok.Rule `json:"j" name:"a"`
	F257x tok.Rule `json:"name"`
	F258x tok.Rule `json:"j" name:"a-b"`
	f259x tok.Rule
	F260x tok.Rule `x:"" name:"a+b"`
	f261x tok.Rule `json:"j" name:"a+b"`
	F262x tok.Rule `json:"j" name:"zZ9"`
	F263x tok.Rule
	F264x tok.Rule             `json:"j" name:"w-"`
	F265x tok.Rule             `x:"" name:"a.b"`
	F266x tok.Rule             `x:"" name:"rule"`
	F267x tok.Rule             `json:"j" name:"zZ9"`
	F268x tok.Rule             `x:"" name:"a.b"`
	F269x tok.Rule             `x:"" name:"e."`
	F270x struct{ A tok.Rule } `name:"Value"`
	F271x tok.Rule             `x:"" name:"rule"`
	F272x tok.Rule             `x:"" name:"x1"`
	F273x tok.Rule             `x:"" name:"Z"`
	F274x []tok.Rule           `name:"Z"`
	F275x tok.Reader           `name:"x1"`
	F276x tok.Rule             `name:"a+b"`
	F277x struct{ A tok.Rule } `json:"j" name:"rule"`
	F278x tok.Rule             `x:"" name:"r_"`
	F279x tok.Rule             `name:"a_b"`
	F280x tok.Rule
	F281x string   `name:"q+"`
	F282x tok.Rule `name:"zZ9"`
	F283x tok.Rule `name:"x1"`
	F284x tok.Rule
	F285x int      `name:"a"`
	F286x tok.Rule `x:"" name:"rule"`
	F287x tok.Rule `json:"j" name:"Z"`
	F288x tok.Rule `x:"" name:"r_"`
	f289x tok.Rule
	F290x string
	F291x tok.Rule `name:"q+"`
	F292x tok.Rule
	F293x tok.Rule `x:"" name:"a-b"`
	F294x myRule   `json:"j" name:"B2-c.d_e+f"`
	F295x tok.Rule `x:"" name:"a"`
	F296x tok.Rule `name:"a.b"`
	F297x tok.Rule
	F298x []tok.Rule `x:"" name:"x1"`
	F299x tok.Rule   `json:"j" name:"rule"`
	F300x tok.Rule
	F301x tok.Rule `x:"" name:"a-b"`
	F302x tok.Reader
	F303x tok.Rule  `json:"name"`
	F304x tok.Rule  `json:"j" name:"q+"`
	F305x tok.Rule  `name:"a+b"`
	f306x tok.Rule  `name:"Value"`
	F307x tok.Rule  `json:"j" name:"a"`
	F308x tok.Rule  `json:"j" name:"Value"`
	F309x tok.Rule  `x:"" name:"rule"`
	F310x tok.Rule  `json:"j" name:"Value"`
	F311x tok.Rule  `x:"" name:"x1"`
	F312x tok.Rule  `name:"Z"`
	F313x tok.Rule  `name:"a-b"`
	F314x tok.Rule  `name:"a"`
	F315x myRule    `json:"j" name:"a.b"`
	F316x tok.Rule  `name:"a.b"`
	F317x tok.Rule  `name:"a+b"`
	F318x tok.Rule  `json:"j" name:"a+b"`
	F319x tok.Rule  `name:"zZ9"`
	F320x *tok.Rule `name:"a-b"`
	f321x tok.Rule  `json:"name"`
	F322x tok.Rule  `x:"" name:"rule"`
	F323x tok.Rule  `json:"name"`
	f324x tok.Rule  `name:"w-"`
	f325x tok.Rule  `json:"j" name:"a_b"`
	F326x tok.Rule  `x:"" name:"a.b"`
	F327x tok.Rule
	F328x *tok.Rule `x:"" name:"a-b"`
	F329x tok.Rule  `name:"a.b"`
}

func (g *gram75) Read(s *tok.Scanner) error { return nil }
func (g *gram75) What() string              { return "gram" }
func (g *gram75) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram75) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F002x, &g.F004x, &g.F005x, &g.F006x, &g.F007x, &g.F008x, &g.F009x, &g.F010x, &g.F011x, &g.F012x, &g.F013x, &g.F014x, &g.F015x, &g.F016x, &g.F018x, &g.F022x, &g.F024x, &g.F025x, &g.F029x, &g.F030x, &g.F031x, &g.F032x, &g.F034x, &g.F035x, &g.F036x, &g.F037x, &g.F038x, &g.F039x, &g.F040x, &g.F042x, &g.F043x, &g.F045x, &g.F046x, &g.F047x, &g.F049x, &g.F050x, &g.F051x, &g.F053x, &g.F055x, &g.F056x, &g.F057x, &g.F058x, &g.F059x, &g.F060x, &g.F061x, &g.F062x, &g.F063x, &g.F064x, &g.F066x, &g.F067x, &g.F069x, &g.F070x, &g.F072x, &g.F073x, &g.F075x, &g.F076x, &g.F077x, &g.F078x, &g.F080x, &g.F081x, &g.F082x, &g.F084x, &g.F086x, &g.F087x, &g.F088x, &g.F089x, &g.F090x, &g.F091x, &g.F092x, &g.F093x, &g.F095x, &g.F096x, &g.F098x, &g.F099x, &g.F100x, &g.F101x, &g.F102x, &g.F103x, &g.F104x, &g.F105x, &g.F106x, &g.F107x, &g.F108x, &g.F109x, &g.F110x, &g.F111x, &g.F112x, &g.F113x, &g.F114x, &g.F115x, &g.F116x, &g.F117x, &g.F119x, &g.F120x, &g.F122x, &g.F123x, &g.F124x, &g.F125x, &g.F126x, &g.F127x, &g.F130x, &g.F132x, &g.F133x, &g.F134x, &g.F135x, &g.F136x, &g.F138x, &g.F140x, &g.F141x, &g.F142x, &g.F143x, &g.F146x, &g.F151x, &g.F154x, &g.F156x, &g.F157x, &g.F159x, &g.F161x, &g.F162x, &g.F163x, &g.F164x, &g.F165x, &g.F167x, &g.F169x, &g.F170x, &g.F173x, &g.F176x, &g.F177x, &g.F179x, &g.F180x, &g.F181x, &g.F182x, &g.F184x, &g.F185x, &g.F188x, &g.F190x, &g.F191x, &g.F192x, &g.F194x, &g.F195x, &g.F197x, &g.F198x, &g.F200x, &g.F201x, &g.F202x, &g.F204x, &g.F205x, &g.F207x, &g.F208x, &g.F209x, &g.F211x, &g.F212x, &g.F213x, &g.F214x, &g.F215x, &g.F216x, &g.F217x, &g.F218x, &g.F220x, &g.F223x, &g.F224x, &g.F225x, &g.F227x, &g.F229x, &g.F230x, &g.F231x, &g.F233x, &g.F234x, &g.F236x, &g.F237x, &g.F238x, &g.F239x, &g.F240x, &g.F241x, &g.F242x, &g.F243x, &g.F244x, &g.F245x, &g.F246x, &g.F247x, &g.F248x, &g.F249x, &g.F250x, &g.F251x, &g.F252x, &g.F253x, &g.F254x, &g.F255x, &g.F256x, &g.F257x, &g.F258x, &g.F260x, &g.F262x, &g.F263x, &g.F264x, &g.F265x, &g.F266x, &g.F267x, &g.F268x, &g.F269x, &g.F271x, &g.F272x, &g.F273x, &g.F276x, &g.F278x, &g.F279x, &g.F280x, &g.F282x, &g.F283x, &g.F284x, &g.F286x, &g.F287x, &g.F288x, &g.F291x, &g.F292x, &g.F293x, &g.F295x, &g.F296x, &g.F297x, &g.F299x, &g.F300x, &g.F301x, &g.F303x, &g.F304x, &g.F305x, &g.F307x, &g.F308x, &g.F309x, &g.F310x, &g.F311x, &g.F312x, &g.F313x, &g.F314x, &g.F316x, &g.F317x, &g.F318x, &g.F319x, &g.F322x, &g.F323x, &g.F326x, &g.F327x, &g.F329x}
}
func (g *gram75) fields() []field {
	return []field{
		{"F000x", "rule", 0, ""},
		{"F001x", "other", 1, "q+"},
		{"F002x", "rule", 1, "a-b"},
		{"F003x", "other", 1, "B2-c.d_e+f"},
		{"F004x", "rule", 1, "a"},
		{"F005x", "rule", 1, "a-b"},
		{"F006x", "rule", 0, ""},
		{"F007x", "rule", 1, "r_"},
		{"F008x", "rule", 1, "zZ9"},
		{"F009x", "rule", 1, "e."},
		{"F010x", "rule", 1, "q+"},
		{"F011x", "rule", 1, "a"},
		{"F012x", "rule", 0, ""},
		{"F013x", "rule", 1, "a.b"},
		{"F014x", "rule", 0, ""},
		{"F015x", "rule", 1, "q+"},
		{"F016x", "rule", 1, "r_"},
		{"f017x", "hidden", 0, ""},
		{"F018x", "rule", 1, "B2-c.d_e+f"},
		{"f019x", "hidden", 0, ""},
		{"F020x", "other", 0, ""},
		{"F021x", "other", 1, "a-b"},
		{"F022x", "rule", 0, ""},
		{"f023x", "hidden", 1, "q+"},
		{"F024x", "rule", 1, "e."},
		{"F025x", "rule", 1, "B2-c.d_e+f"},
		{"F026x", "other", 1, "e."},
		{"f027x", "hidden", 1, "a-b"},
		{"F028x", "other", 1, "w-"},
		{"F029x", "rule", 1, "a_b"},
		{"F030x", "rule", 1, "x1"},
		{"F031x", "rule", 1, "rule"},
		{"F032x", "rule", 1, "e."},
		{"f033x", "hidden", 1, "q+"},
		{"F034x", "rule", 0, ""},
		{"F035x", "rule", 1, "a"},
		{"F036x", "rule", 1, "x1"},
		{"F037x", "rule", 1, "e."},
		{"F038x", "rule", 0, ""},
		{"F039x", "rule", 0, ""},
		{"F040x", "rule", 1, "B2-c.d_e+f"},
		{"F041x", "other", 1, "a_b"},
		{"F042x", "rule", 1, "Z"},
		{"F043x", "rule", 1, "a_b"},
		{"F044x", "other", 1, "a_b"},
		{"F045x", "rule", 0, ""},
		{"F046x", "rule", 1, "w-"},
		{"F047x", "rule", 0, ""},
		{"f048x", "hidden", 0, ""},
		{"F049x", "rule", 0, ""},
		{"F050x", "rule", 1, "w-"},
		{"F051x", "rule", 1, "a-b"},
		{"F052x", "other", 1, "a"},
		{"F053x", "rule", 1, "zZ9"},
		{"F054x", "other", 1, "r_"},
		{"F055x", "rule", 1, "a+b"},
		{"F056x", "rule", 0, ""},
		{"F057x", "rule", 1, "r_"},
		{"F058x", "rule", 1, "a-b"},
		{"F059x", "rule", 1, "q+"},
		{"F060x", "rule", 0, ""},
		{"F061x", "rule", 1, "zZ9"},
		{"F062x", "rule", 1, "a.b"},
		{"F063x", "rule", 1, "rule"},
		{"F064x", "rule", 0, ""},
		{"f065x", "hidden", 1, "x1"},
		{"F066x", "rule", 1, "rule"},
		{"F067x", "rule", 0, ""},
		{"F068x", "other", 1, "a.b"},
		{"F069x", "rule", 1, "x1"},
		{"F070x", "rule", 0, ""},
		{"F071x", "other", 1, "a.b"},
		{"F072x", "rule", 1, "a_b"},
		{"F073x", "rule", 1, "w-"},
		{"F074x", "other", 0, ""},
		{"F075x", "rule", 0, ""},
		{"F076x", "rule", 1, "Value"},
		{"F077x", "rule", 1, "e."},
		{"F078x", "rule", 0, ""},
		{"f079x", "hidden", 0, ""},
		{"F080x", "rule", 0, ""},
		{"F081x", "rule", 1, "zZ9"},
		{"F082x", "rule", 1, "e."},
		{"F083x", "other", 0, ""},
		{"F084x", "rule", 1, "rule"},
		{"F085x", "other", 0, ""},
		{"F086x", "rule", 1, "a+b"},
		{"F087x", "rule", 1, "a.b"},
		{"F088x", "rule", 1, "B2-c.d_e+f"},
		{"F089x", "rule", 1, "a"},
		{"F090x", "rule", 0, ""},
		{"F091x", "rule", 1, "Value"},
		{"F092x", "rule", 0, ""},
		{"F093x", "rule", 1, "x1"},
		{"f094x", "hidden", 0, ""},
		{"F095x", "rule", 0, ""},
		{"F096x", "rule", 0, ""},
		{"F097x", "other", 0, ""},
		{"F098x", "rule", 1, "a-b"},
		{"F099x", "rule", 1, "r_"},
		{"F100x", "rule", 1, "rule"},
		{"F101x", "rule", 1, "B2-c.d_e+f"},
		{"F102x", "rule", 1, "a+b"},
		{"F103x", "rule", 1, "a.b"},
		{"F104x", "rule", 1, "Z"},
		{"F105x", "rule", 1, "a.b"},
		{"F106x", "rule", 1, "r_"},
		{"F107x", "rule", 0, ""},
		{"F108x", "rule", 1, "a+b"},
		{"F109x", "rule", 0, ""},
		{"F110x", "rule", 1, "q+"},
		{"F111x", "rule", 1, "a.b"},
		{"F112x", "rule", 1, "a-b"},
		{"F113x", "rule", 1, "r_"},
		{"F114x", "rule", 1, "r_"},
		{"F115x", "rule", 0, ""},
		{"F116x", "rule", 1, "a-b"},
		{"F117x", "rule", 1, "r_"},
		{"F118x", "other", 1, "rule"},
		{"F119x", "rule", 1, "zZ9"},
		{"F120x", "rule", 1, "a_b"},
		{"f121x", "hidden", 1, "q+"},
		{"F122x", "rule", 1, "a-b"},
		{"F123x", "rule", 1, "a"},
		{"F124x", "rule", 1, "a+b"},
		{"F125x", "rule", 1, "e."},
		{"F126x", "rule", 1, "Value"},
		{"F127x", "rule", 1, "Z"},
		{"F128x", "other", 1, "Z"},
		{"F129x", "other", 0, ""},
		{"F130x", "rule", 0, ""},
		{"f131x", "hidden", 1, "w-"},
		{"F132x", "rule", 1, "x1"},
		{"F133x", "rule", 1, "a-b"},
		{"F134x", "rule", 0, ""},
		{"F135x", "rule", 1, "x1"},
		{"F136x", "rule", 1, "a"},
		{"F137x", "other", 1, "a"},
		{"F138x", "rule", 1, "x1"},
		{"F139x", "other", 0, ""},
		{"F140x", "rule", 1, "r_"},
		{"F141x", "rule", 1, "a_b"},
		{"F142x", "rule", 0, ""},
		{"F143x", "rule", 0, ""},
		{"F144x", "other", 1, "rule"},
		{"F145x", "other", 1, "q+"},
		{"F146x", "rule", 0, ""},
		{"F147x", "other", 1, "a_b"},
		{"F148x", "other", 1, "a.b"},
		{"F149x", "other", 1, "zZ9"},
		{"f150x", "hidden", 1, "e."},
		{"F151x", "rule", 1, "a_b"},
		{"F152x", "other", 1, "a_b"},
		{"f153x", "hidden", 1, "a.b"},
		{"F154x", "rule", 1, "Value"},
		{"f155x", "hidden", 1, "e."},
		{"F156x", "rule", 1, "a+b"},
		{"F157x", "rule", 0, ""},
		{"F158x", "other", 1, "a_b"},
		{"F159x", "rule", 0, ""},
		{"F160x", "other", 1, "x1"},
		{"F161x", "rule", 1, "q+"},
		{"F162x", "rule", 1, "a+b"},
		{"F163x", "rule", 1, "x1"},
		{"F164x", "rule", 1, "Value"},
		{"F165x", "rule", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"f166x", "hidden", 0, ""},
		{"F167x", "rule", 0, ""},
		{"f168x", "hidden", 1, "Value"},
		{"F169x", "rule", 1, "Z"},
		{"F170x", "rule", 0, ""},
		{"F171x", "other", 1, "Z"},
		{"f172x", "hidden", 0, ""},
		{"F173x", "rule", 0, ""},
		{"F174x", "other", 1, "a-b"},
		{"F175x", "other", 1, "a_b"},
		{"F176x", "rule", 1, "zZ9"},
		{"F177x", "rule", 0, ""},
		{"F178x", "other", 1, "a.b"},
		{"F179x", "rule", 1, "a.b"},
		{"F180x", "rule", 1, "q+"},
		{"F181x", "rule", 1, "e."},
		{"F182x", "rule", 0, ""},
		{"f183x", "hidden", 1, "a-b"},
		{"F184x", "rule", 1, "q+"},
		{"F185x", "rule", 1, "rule"},
		{"F186x", "other", 0, ""},
		{"F187x", "other", 1, "zZ9"},
		{"F188x", "rule", 1, "e."},
		{"F189x", "other", 1, "a-b"},
		{"F190x", "rule", 1, "rule"},
		{"F191x", "rule", 1, "e."},
		{"F192x", "rule", 1, "r_"},
		{"f193x", "hidden", 0, ""},
		{"F194x", "rule", 1, "x1"},
		{"F195x", "rule", 1, "a.b"},
		{"F196x", "other", 1, "Z"},
		{"F197x", "rule", 1, "q+"},
		{"F198x", "rule", 1, "B2-c.d_e+f"},
		{"f199x", "hidden", 0, ""},
		{"F200x", "rule", 0, ""},
		{"F201x", "rule", 1, "e."},
		{"F202x", "rule", 1, "B2-c.d_e+f"},
		{"f203x", "hidden", 1, "a_b"},
		{"F204x", "rule", 0, ""},
		{"F205x", "rule", 1, "x1"},
		{"f206x", "hidden", 1, "w-"},
		{"F207x", "rule", 1, "Value"},
		{"F208x", "rule", 1, "B2-c.d_e+f"},
		{"F209x", "rule", 0, ""},
		{"F210x", "other", 1, "x1"},
		{"F211x", "rule", 1, "zZ9"},
		{"F212x", "rule", 1, "x1"},
		{"F213x", "rule", 1, "q+"},
		{"F214x", "rule", 0, ""},
		{"F215x", "rule", 1, "r_"},
		{"F216x", "rule", 1, "x1"},
		{"F217x", "rule", 0, ""},
		{"F218x", "rule", 0, ""},
		{"F219x", "other", 1, "a+b"},
		{"F220x", "rule", 1, "x1"},
		{"F221x", "other", 1, "a+b"},
		{"F222x", "other", 0, ""},
		{"F223x", "rule", 1, "a-b"},
		{"F224x", "rule", 1, "a.b"},
		{"F225x", "rule", 1, "a-b"},
		{"F226x", "other", 1, "a+b"},
		{"F227x", "rule", 0, ""},
		{"f228x", "hidden", 1, "q+"},
		{"F229x", "rule", 1, "a+b"},
		{"F230x", "rule", 1, "w-"},
		{"F231x", "rule", 1, "r_"},
		{"f232x", "hidden", 1, "rule"},
		{"F233x", "rule", 1, "a-b"},
		{"F234x", "rule", 1, "q+"},
		{"f235x", "hidden", 0, ""},
		{"F236x", "rule", 1, "Value"},
		{"F237x", "rule", 1, "r_"},
		{"F238x", "rule", 1, "w-"},
		{"F239x", "rule", 1, "rule"},
		{"F240x", "rule", 1, "e."},
		{"F241x", "rule", 1, "Value"},
		{"F242x", "rule", 1, "e."},
		{"F243x", "rule", 1, "Z"},
		{"F244x", "rule", 1, "e."},
		{"F245x", "rule", 1, "a"},
		{"F246x", "rule", 1, "a+b"},
		{"F247x", "rule", 0, ""},
		{"F248x", "rule", 1, "Value"},
		{"F249x", "rule", 1, "a+b"},
		{"F250x", "rule", 1, "a"},
		{"F251x", "rule", 1, "x1"},
		{"F252x", "rule", 1, "e."},
		{"F253x", "rule", 0, ""},
		{"F254x", "rule", 1, "Z"},
		{"F255x", "rule", 1, "a_b"},
		{"F256x", "rule", 1, "a"},
		{"F257x", "rule", 0, ""},
		{"F258x", "rule", 1, "a-b"},
		{"f259x", "hidden", 0, ""},
		{"F260x", "rule", 1, "a+b"},
		{"f261x", "hidden", 1, "a+b"},
		{"F262x", "rule", 1, "zZ9"},
		{"F263x", "rule", 0, ""},
		{"F264x", "rule", 1, "w-"},
		{"F265x", "rule", 1, "a.b"},
		{"F266x", "rule", 1, "rule"},
		{"F267x", "rule", 1, "zZ9"},
		{"F268x", "rule", 1, "a.b"},
		{"F269x", "rule", 1, "e."},
		{"F270x", "other", 1, "Value"},
		{"F271x", "rule", 1, "rule"},
		{"F272x", "rule", 1, "x1"},
		{"F273x", "rule", 1, "Z"},
		{"F274x", "other", 1, "Z"},
		{"F275x", "other", 1, "x1"},
		{"F276x", "rule", 1, "a+b"},
		{"F277x", "other", 1, "rule"},
		{"F278x", "rule", 1, "r_"},
		{"F279x", "rule", 1, "a_b"},
		{"F280x", "rule", 0, ""},
		{"F281x", "other", 1, "q+"},
		{"F282x", "rule", 1, "zZ9"},
		{"F283x", "rule", 1, "x1"},
		{"F284x", "rule", 0, ""},
		{"F285x", "other", 1, "a"},
		{"F286x", "rule", 1, "rule"},
		{"F287x", "rule", 1, "Z"},
		{"F288x", "rule", 1, "r_"},
		{"f289x", "hidden", 0, ""},
		{"F290x", "other", 0, ""},
		{"F291x", "rule", 1, "q+"},
		{"F292x", "rule", 0, ""},
		{"F293x", "rule", 1, "a-b"},
		{"F294x", "other", 1, "B2-c.d_e+f"},
		{"F295x", "rule", 1, "a"},
		{"F296x", "rule", 1, "a.b"},
		{"F297x", "rule", 0, ""},
		{"F298x", "other", 1, "x1"},
		{"F299x", "rule", 1, "rule"},
		{"F300x", "rule", 0, ""},
		{"F301x", "rule", 1, "a-b"},
		{"F302x", "other", 0, ""},
		{"F303x", "rule", 0, ""},
		{"F304x", "rule", 1, "q+"},
		{"F305x", "rule", 1, "a+b"},
		{"f306x", "hidden", 1, "Value"},
		{"F307x", "rule", 1, "a"},
		{"F308x", "rule", 1, "Value"},
		{"F309x", "rule", 1, "rule"},
		{"F310x", "rule", 1, "Value"},
		{"F311x", "rule", 1, "x1"},
		{"F312x", "rule", 1, "Z"},
		{"F313x", "rule", 1, "a-b"},
		{"F314x", "rule", 1, "a"},
		{"F315x", "other", 1, "a.b"},
		{"F316x", "rule", 1, "a.b"},
		{"F317x", "rule", 1, "a+b"},
		{"F318x", "rule", 1, "a+b"},
		{"F319x", "rule", 1, "zZ9"},
		{"F320x", "other", 1, "a-b"},
		{"f321x", "hidden", 0, ""},
		{"F322x", "rule", 1, "rule"},
		{"F323x", "rule", 0, ""},
		{"f324x", "hidden", 1, "w-"},
		{"f325x", "hidden", 1, "a_b"},
		{"F326x", "rule", 1, "a.b"},
		{"F327x", "rule", 0, ""},
		{"F328x", "other", 1, "a-b"},
		{"F329x", "rule", 1, "a.b"},
	}
}

type gram76 struct {
	F000x tok.Rule  `json:"j" name:"a_b"`
	F001x myRule    `name:"B2-c.d_e+f"`
	F002x tok.Rule  `name:"Z"`
	F003x tok.Rule  `json:"j" name:"a+b"`
	F004x tok.Rule  `json:"j" name:"a+b"`
	F005x tok.Rule  `x:"" name:"B2-c.d_e+f"`
	F006x *tok.Rule `x:"" name:"B2-c.d_e+f"`
	F007x tok.Rule  `name:"B2-c.d_e+f"`
	F008x tok.Rule  `json:"j" name:"a"`
	F009x tok.Rule  `json:"j" name:"a-b"`
	f010x tok.Rule  `name:"q+"`
	F011x tok.Rule  `json:"name"`
	F012x tok.Rule  `json:"j" name:"a+b"`
	f013x tok.Rule  `name:"e."`
	f014x tok.Rule  `x:"" name:"w-"`
	F015x tok.Rule  `json:"name"`
	F016x tok.Rule  `name:"a_b"`
	F017x tok.Rule  `name:"a-b"`
	F018x tok.Rule  `x:"" name:"rule"`
	F019x tok.Rule  `x:"" name:"a_b"`
	F020x tok.Rule  `name:"rule"`
	F021x myRule    `name:"x1"`
	F022x tok.Rule  `name:"w-"`
	F023x tok.Rule  `name:"a_b"`
	F024x tok.Rule
	F025x tok.Rule `name:"rule"`
	F026x tok.Rule
	F027x tok.Rule `json:"j" name:"a+b"`
	F028x string   `name:"a+b"`
	F029x int      `json:"j" name:"q+"`
	F030x int
	F031x tok.Rule `name:"a_b"`
	F032x tok.Rule `json:"j" name:"x1"`
	F033x tok.Rule `name:"a"`
	F034x string
	F035x struct{ A tok.Rule } `name:"zZ9"`
	F036x myRule               `json:"j" name:"a"`
	F037x tok.Rule             `name:"e."`
	F038x tok.Rule
	F039x tok.Rule
	F040x myRule               `x:"" name:"a"`
	F041x tok.Reader           `json:"j" name:"Z"`
	F042x tok.Rule             `name:"e."`
	F043x tok.Rule             `json:"j" name:"r_"`
	F044x tok.Rule             `name:"a-b"`
	F045x wrapRule             `name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	F046x tok.Rule             `name:"x1"`
	F047x []tok.Rule           `name:"a.b"`
	F048x tok.Rule             `name:"q+"`
	F049x tok.Rule             `x:"" name:"w-"`
	F050x tok.Rule             `json:"j" name:"q+"`
	F051x tok.Rule             `name:"a.b"`
	f052x tok.Rule             `json:"j" name:"rule"`
	F053x tok.Rule             `x:"" name:"x1"`
	F054x tok.Rule             `name:"q+"`
	F055x struct{ A tok.Rule } `name:"q+"`
	F056x tok.Rule
	f057x tok.Rule `name:"zZ9"`
	F058x *tok.Rule
	f059x tok.Rule  `json:"j" name:"Value"`
	f060x tok.Rule  `name:"q+"`
	F061x tok.Rule  `json:"j" name:"zZ9"`
	F062x tok.Rule  `x:"" name:"w-"`
	F063x *tok.Rule `name:"r_"`
	F064x tok.Rule  `name:"a+b"`
	f065x tok.Rule
	F066x tok.Rule `name:"zZ9"`
	F067x tok.Rule `name:"a+b"`
	F068x tok.Rule `name:"a"`
	F069x tok.Rule `name:"Value"`
	F070x tok.Rule `name:"x1"`
	F071x tok.Rule
	F072x tok.Rule   `name:"a-b"`
	F073x tok.Rule   `name:"e."`
	F074x []tok.Rule `name:"a"`
	F075x tok.Rule   `name:"a-b"`
	F076x string     `name:"Value"`
	F077x tok.Rule   `json:"j" name:"zZ9"`
	F078x tok.Rule   `name:"a.b"`
	F079x []tok.Rule
	F080x tok.Rule `name:"a-b"`
	F081x tok.Rule `json:"j" name:"w-"`
	F082x tok.Rule
	f083x tok.Rule `name:"e."`
	F084x tok.Rule `name:"w-"`
	f085x tok.Rule `name:"a-b"`
	F086x tok.Rule `json:"name"`
	F087x tok.Rule `name:"a-b"`
	F088x tok.Rule `name:"1a"`
	F089x tok.Rule `json:"name"`
}

func (g *gram76) Read(s *tok.Scanner) error { return nil }
func (g *gram76) What() string              { return "gram" }
func (g *gram76) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram76) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F002x, &g.F003x, &g.F004x, &g.F005x, &g.F007x, &g.F008x, &g.F009x, &g.F011x, &g.F012x, &g.F015x, &g.F016x, &g.F017x, &g.F018x, &g.F019x, &g.F020x, &g.F022x, &g.F023x, &g.F024x, &g.F025x, &g.F026x, &g.F027x, &g.F031x, &g.F032x, &g.F033x, &g.F037x, &g.F038x, &g.F039x, &g.F042x, &g.F043x, &g.F044x, &g.F046x, &g.F048x, &g.F049x, &g.F050x, &g.F051x, &g.F053x, &g.F054x, &g.F056x, &g.F061x, &g.F062x, &g.F064x, &g.F066x, &g.F067x, &g.F068x, &g.F069x, &g.F070x, &g.F071x, &g.F072x, &g.F073x, &g.F075x, &g.F077x, &g.F078x, &g.F080x, &g.F081x, &g.F082x, &g.F084x, &g.F086x, &g.F087x, &g.F088x, &g.F089x}
}
func (g *gram76) fields() []field {
	return []field{
		{"F000x", "rule", 1, "a_b"},
		{"F001x", "other", 1, "B2-c.d_e+f"},
		{"F002x", "rule", 1, "Z"},
		{"F003x", "rule", 1, "a+b"},
		{"F004x", "rule", 1, "a+b"},
		{"F005x", "rule", 1, "B2-c.d_e+f"},
		{"F006x", "other", 1, "B2-c.d_e+f"},
		{"F007x", "rule", 1, "B2-c.d_e+f"},
		{"F008x", "rule", 1, "a"},
		{"F009x", "rule", 1, "a-b"},
		{"f010x", "hidden", 1, "q+"},
		{"F011x", "rule", 0, ""},
		{"F012x", "rule", 1, "a+b"},
		{"f013x", "hidden", 1, "e."},
		{"f014x", "hidden", 1, "w-"},
		{"F015x", "rule", 0, ""},
		{"F016x", "rule", 1, "a_b"},
		{"F017x", "rule", 1, "a-b"},
		{"F018x", "rule", 1, "rule"},
		{"F019x", "rule", 1, "a_b"},
		{"F020x", "rule", 1, "rule"},
		{"F021x", "other", 1, "x1"},
		{"F022x", "rule", 1, "w-"},
		{"F023x", "rule", 1, "a_b"},
		{"F024x", "rule", 0, ""},
		{"F025x", "rule", 1, "rule"},
		{"F026x", "rule", 0, ""},
		{"F027x", "rule", 1, "a+b"},
		{"F028x", "other", 1, "a+b"},
		{"F029x", "other", 1, "q+"},
		{"F030x", "other", 0, ""},
		{"F031x", "rule", 1, "a_b"},
		{"F032x", "rule", 1, "x1"},
		{"F033x", "rule", 1, "a"},
		{"F034x", "other", 0, ""},
		{"F035x", "other", 1, "zZ9"},
		{"F036x", "other", 1, "a"},
		{"F037x", "rule", 1, "e."},
		{"F038x", "rule", 0, ""},
		{"F039x", "rule", 0, ""},
		{"F040x", "other", 1, "a"},
		{"F041x", "other", 1, "Z"},
		{"F042x", "rule", 1, "e."},
		{"F043x", "rule", 1, "r_"},
		{"F044x", "rule", 1, "a-b"},
		{"F045x", "other", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"F046x", "rule", 1, "x1"},
		{"F047x", "other", 1, "a.b"},
		{"F048x", "rule", 1, "q+"},
		{"F049x", "rule", 1, "w-"},
		{"F050x", "rule", 1, "q+"},
		{"F051x", "rule", 1, "a.b"},
		{"f052x", "hidden", 1, "rule"},
		{"F053x", "rule", 1, "x1"},
		{"F054x", "rule", 1, "q+"},
		{"F055x", "other", 1, "q+"},
		{"F056x", "rule", 0, ""},
		{"f057x", "hidden", 1, "zZ9"},
		{"F058x", "other", 0, ""},
		{"f059x", "hidden", 1, "Value"},
		{"f060x", "hidden", 1, "q+"},
		{"F061x", "rule", 1, "zZ9"},
		{"F062x", "rule", 1, "w-"},
		{"F063x", "other", 1, "r_"},
		{"F064x", "rule", 1, "a+b"},
		{"f065x", "hidden", 0, ""},
		{"F066x", "rule", 1, "zZ9"},
		{"F067x", "rule", 1, "a+b"},
		{"F068x", "rule", 1, "a"},
		{"F069x", "rule", 1, "Value"},
		{"F070x", "rule", 1, "x1"},
		{"F071x", "rule", 0, ""},
		{"F072x", "rule", 1, "a-b"},
		{"F073x", "rule", 1, "e."},
		{"F074x", "other", 1, "a"},
		{"F075x", "rule", 1, "a-b"},
		{"F076x", "other", 1, "Value"},
		{"F077x", "rule", 1, "zZ9"},
		{"F078x", "rule", 1, "a.b"},
		{"F079x", "other", 0, ""},
		{"F080x", "rule", 1, "a-b"},
		{"F081x", "rule", 1, "w-"},
		{"F082x", "rule", 0, ""},
		{"f083x", "hidden", 1, "e."},
		{"F084x", "rule", 1, "w-"},
		{"f085x", "hidden", 1, "a-b"},
		{"F086x", "rule", 0, ""},
		{"F087x", "rule", 1, "a-b"},
		{"F088x", "rule", 1, "1a"},
		{"F089x", "rule", 0, ""},
	}
}

type gram77 struct {
	F000x tok.Rule `name:"x1"`
	F001x tok.Rule `x:"" name:"e."`
	F002x tok.Rule `name:"w-"`
	F003x tok.Rule
	f004x tok.Rule `json:"name"`
	F005x tok.Rule `name:"Z"`
	F006x tok.Rule `name:"B2-c.d_e+f"`
	F007x tok.Rule `json:"j" name:"a.b"`
	F008x tok.Rule `json:"j" name:"r_"`
	F009x myRule   `name:"Z"`
	F010x tok.Rule
	F011x tok.Rule `x:"" name:"w-"`
	F012x tok.Rule `name:"rule"`
	F013x tok.Rule `name:"zZ9"`
	f014x tok.Rule `name:"a_b"`
	f015x tok.Rule `json:"j" name:"a.b"`
	F016x tok.Rule
	F017x tok.Rule `json:"name"`
	F018x tok.Rule `x:"" name:"q+"`
	F019x tok.Rule
	F020x tok.Rule
	F021x tok.Rule `x:"" name:"a_b"`
	F022x tok.Rule `name:"e."`
	F023x tok.Rule `name:"rule"`
	F024x tok.Rule `json:"name"`
	F025x tok.Reader
	F026x tok.Rule `json:"j" name:"rule"`
	F027x tok.Rule `x:"" name:"a+b"`
	F028x tok.Rule `json:"name"`
	F029x tok.Rule `json:"j" name:"zZ9"`
	F030x tok.Rule `json:"name"`
	F031x tok.Rule `json:"name"`
	F032x tok.Rule `x:"" name:"Z"`
	F033x myRule   `name:"r_"`
	F034x tok.Rule
	f035x tok.Rule   `name:"a"`
	F036x tok.Rule   `json:"name"`
	F037x tok.Rule   `name:"a-b"`
	F038x tok.Rule   `name:"x1"`
	f039x tok.Rule   `json:"j" name:"a+b"`
	F040x tok.Rule   `x:"" name:"Z"`
	F041x tok.Rule   `x:"" name:"r_"`
	F042x tok.Rule   `x:"" name:"w-"`
	F043x []tok.Rule `name:"a"`
	F044x tok.Rule   `json:"name"`
	F045x tok.Rule   `name:"Value"`
	F046x tok.Rule   `json:"j" name:"r_"`
	F047x tok.Rule
	F048x tok.Rule  `name:"a.b"`
	F049x tok.Rule  `name:"rule"`
	F050x *tok.Rule `name:"a"`
	f051x tok.Rule  `json:"j" name:"x1"`
	F052x tok.Rule
	F053x tok.Rule `name:"Z"`
	F054x tok.Rule `name:"w-"`
	F055x tok.Rule `name:"r_"`
	F056x tok.Rule `x:"" name:"a_b"`
	f057x tok.Rule `name:"a+b"`
	F058x tok.Rule `name:"a-b"`
	F059x tok.Rule `x:"" name:"a_b"`
	F060x tok.Rule
	f061x tok.Rule `json:"j" name:"a+b"`
	F062x tok.Rule
	f063x tok.Rule
	F064x tok.Rule `name:"a+b"`
	F065x tok.Rule `json:"j" name:"Value"`
	F066x tok.Rule `x:"" name:"a"`
	F067x tok.Rule `name:"a"`
	F068x tok.Rule `json:"name"`
	F069x int
	F070x tok.Reader `name:"x1"`
	F071x tok.Rule   `name:"a_b"`
	F072x tok.Rule   `json:"j" name:"Z"`
	F073x tok.Rule   `name:"a_b"`
	F074x tok.Rule   `json:"name"`
	F075x tok.Rule
	F076x tok.Rule
	F077x tok.Rule   `x:"" name:"B2-c.d_e+f"`
	F078x tok.Rule   `name:"B2-c.d_e+f"`
	F079x tok.Rule   `x:"" name:"a-b"`
	F080x tok.Rule   `json:"j" name:"a-b"`
	F081x tok.Rule   `name:"a_b"`
	F082x tok.Rule   `x:"" name:"q+"`
	F083x tok.Reader `json:"name"`
	F084x tok.Rule   `json:"j" name:"r_"`
	F085x tok.Rule   `name:"a-b"`
	F086x tok.Rule   `x:"" name:"w-"`
	F087x tok.Rule   `name:"x1"`
	F088x tok.Rule   `json:"j" name:"B2-c.d_e+f"`
	F089x tok.Rule   `x:"" name:"w-"`
	F090x tok.Rule   `name:"a-b"`
	F091x tok.Rule   `json:"j" name:"B2-c.d_e+f"`
	F092x tok.Rule   `name:"Z"`
	F093x tok.Rule   `x:"" name:"r_"`
	F094x tok.Rule
	F095x tok.Rule `json:"j" name:"a+b"`
	F096x tok.Rule `name:"e."`
	F097x tok.Rule `name:"rule"`
	F098x tok.Rule `x:"" name:"x1"`
	F099x tok.Rule `json:"name"`
	f100x tok.Rule `json:"j" name:"e."`
	F101x tok.Rule
	F102x tok.Reader `name:"Value"`
	F103x tok.Rule   `x:"" name:"q+"`
	F104x wrapRule   `x:"" name:"w-"`
	F105x tok.Rule   `json:"j" name:"a_b"`
	F106x tok.Rule   `name:"e."`
	F107x *tok.Rule  `x:"" name:"B2-c.d_e+f"`
	F108x tok.Rule
	F109x tok.Rule `name:"zZ9"`
	f110x tok.Rule `x:"" name:"B2-c.d_e+f"`
	f111x tok.Rule `name:"x1"`
	F112x tok.Rule `name:"rule"`
	F113x tok.Rule
	F114x tok.Rule
	F115x []tok.Rule `name:"w-"`
	F116x string
	F117x tok.Rule `name:"e."`
	F118x tok.Rule `json:"j" name:"a-b"`
	F119x wrapRule `json:"j" name:"a-b"`
	F120x tok.Rule
	F121x tok.Rule             `x:"" name:"rule"`
	F122x []tok.Rule           `json:"j" name:"a.b"`
	F123x tok.Rule             `json:"name"`
	F124x tok.Rule             `name:"q+"`
	F125x tok.Rule             `name:"a.b"`
	F126x struct{ A tok.Rule } `json:"j" name:"Value"`
	F127x tok.Rule             `name:"a+b"`
	F128x tok.Rule             `name:"a"`
	f129x tok.Rule
	F130x []tok.Rule `x:"" name:"r_"`
	F131x tok.Rule   `x:"" name:"rule"`
	F132x []tok.Rule `name:"w-"`
	F133x tok.Rule   `x:"" name:"x1"`
	F134x tok.Rule   `x:"" name:"B2-c.d_e+f"`
	F135x tok.Rule   `json:"j" name:"zZ9"`
	F136x tok.Rule   `json:"j" name:"Z"`
	F137x tok.Rule   `json:"j" name:"rule"`
	F138x tok.Rule   `x:"" name:"r_"`
	F139x tok.Rule
	F140x tok.Rule `x:"" name:"a-b"`
	f141x tok.Rule `name:"Value"`
	F142x tok.Rule
	F143x tok.Rule   `name:"x1"`
	F144x tok.Rule   `x:"" name:"a_b"`
	F145x []tok.Rule `json:"j" name:"r_"`
	F146x tok.Rule   `name:"x1"`
	F147x tok.Rule   `json:"j" name:"w-"`
	F148x tok.Rule   `name:"q+"`
	F149x tok.Rule   `name:"w-"`
	F150x tok.Rule
	F151x tok.Rule   `name:"Z"`
	F152x tok.Rule   `json:"j" name:"e."`
	F153x tok.Rule   `json:"j" name:"zZ9"`
	F154x tok.Rule   `json:"j" name:"zZ9"`
	F155x myRule     `name:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`
	F156x tok.Rule   `name:"Value"`
	F157x tok.Rule   `x:"" name:"a"`
	F158x tok.Rule   `name:"Z"`
	F159x tok.Rule   `json:"name"`
	F160x tok.Rule   `json:"name"`
	F161x tok.Rule   `x:"" name:"a.b"`
	F162x tok.Rule   `json:"j" name:"e."`
	F163x tok.Rule   `json:"name"`
	F164x tok.Rule   `name:"a_b"`
	F165x tok.Reader `name:"r_"`
	F166x tok.Reader `json:"name"`
	F167x tok.Rule   `name:"q+"`
	F168x tok.Rule   `name:"r_"`
	F169x tok.Rule   `name:"a"`
	F170x wrapRule   `name:"e."`
	F171x tok.Rule   `json:"name"`
	F172x tok.Rule   `name:"r_"`
	F173x tok.Rule   `json:"name"`
	F174x tok.Rule   `name:"B2-c.d_e+f"`
	F175x tok.Rule   `name:"zZ9"`
	F176x tok.Rule   `name:"x1"`
	F177x tok.Rule   `name:"Z"`
	f178x tok.Rule   `json:"name"`
	F179x tok.Rule   `json:"j" name:"rule"`
	F180x tok.Rule   `name:"q+"`
	F181x tok.Rule
	F182x tok.Rule `json:"j" name:"e."`
	F183x tok.Rule `json:"j" name:"zZ9"`
	F184x tok.Rule
	F185x tok.Rule   `x:"" name:"r_"`
	F186x tok.Rule   `json:"j" name:"r_"`
	F187x tok.Rule   `json:"j" name:"q+"`
	F188x []tok.Rule `name:"rule"`
	F189x tok.Rule
	F190x tok.Rule   `json:"j" name:"a"`
	F191x []tok.Rule `json:"name"`
	f192x tok.Rule   `name:"x1"`
	F193x tok.Rule   `json:"name"`
	F194x tok.Rule   `name:"B2-c.d_e+f"`
	F195x tok.Rule
	F196x tok.Rule `json:"j" name:"a"`
	F197x tok.Rule `json:"name"`
	F198x tok.Rule
	f199x tok.Rule `json:"j" name:"B2-c.d_e+f"`
	F200x myRule   `json:"j" name:"w-"`
	F201x tok.Rule `x:"" name:"r_"`
	f202x tok.Rule `json:"name"`
	F203x tok.Rule
	F204x tok.Rule `name:"rule"`
	F205x tok.Rule `name:"q+"`
	f206x tok.Rule `x:"" name:"a-b"`
	F207x tok.Rule `x:"" name:"B2-c.d_e+f"`
	F208x tok.Rule `json:"j" name:"e."`
	F209x tok.Rule
	F210x []tok.Rule `name:"Z"`
	F211x tok.Rule   `json:"j" name:"B2-c.d_e+f"`
	F212x tok.Rule   `name:"q+"`
	F213x string     `x:"" name:"a-b"`
	F214x tok.Rule   `json:"name"`
	F215x myRule
	f216x tok.Rule `name:"Z"`
	F217x tok.Rule
	F218x wrapRule `x:"" name:"a_b"`
	F219x tok.Rule `x:"" name:"x1"`
	F220x tok.Rule `name:"w-"`
	f221x tok.Rule `name:"a"`
	F222x tok.Rule `x:"" name:"zZ9"`
	F223x wrapRule
	f224x tok.Rule `name:"a-b"`
	F225x tok.Rule `name:"a-b"`
	F226x tok.Rule `json:"name"`
	f227x tok.Rule `name:"Value"`
	F228x tok.Rule `json:"name"`
	F229x tok.Rule
	F230x tok.Rule `json:"name"`
	F231x tok.Rule `json:"name"`
	F232x tok.Rule `x:"" name:"a_b"`
	F233x tok.Rule `json:"j" name:"B2-c.d_e+f"`
	F234x tok.Rule
	F235x tok.Rule `json:"name"`
	F236x tok.Rule
	F237x tok.Rule `name:"Z"`
	f238x tok.Rule
	F239x tok.Rule `name:"Z"`
	F240x tok.Rule
	F241x int `x:"" name:"B2-c.d_e+f"`
	F242x wrapRule
	F243x tok.Rule
	F244x tok.Rule `name:"x1"`
	F245x tok.Rule
	f246x tok.Rule  `json:"j" name:"q+"`
	F247x *tok.Rule `name:"rule"`
	F248x tok.Rule  `name:"q+"`
	F249x tok.Rule  `name:"a.b"`
	F250x tok.Rule  `name:"q+"`
	F251x tok.Rule  `x:"" name:"rule"`
	F252x tok.Rule  `json:"j" name:"rule"`
	F253x string    `json:"j" name:"q+"`
	F254x tok.Rule  `x:"" name:"q+"`
	f255x tok.Rule  `json:"j" name:"a.b"`
	f256x tok.Rule  `json:"j" name:"q+"`
	F257x tok.Rule  `json:"name"`
	F258x tok.Rule  `json:"j" name:"w-"`
	F259x tok.Rule  `json:"name"`
	F260x tok.Rule  `name:"q+"`
	F261x tok.Rule  `json:"j" name:"q+"`
	F262x tok.Rule
	F263x tok.Rule `name:"x1"`
	f264x tok.Rule `json:"name"`
	F265x []tok.Rule
	F266x tok.Rule   `name:"a"`
	F267x tok.Rule   `x:"" name:"Z"`
	F268x tok.Reader `name:"Value"`
	f269x tok.Rule   `name:"e."`
	F270x tok.Rule   `json:"j" name:"zZ9"`
	f271x tok.Rule   `name:"a"`
	f272x tok.Rule   `json:"j" name:"e."`
	F273x tok.Rule
	F274x tok.Rule   `x:"" name:"Value"`
	F275x tok.Reader `json:"j" name:"Value"`
	F276x tok.Rule   `name:"x1"`
	F277x tok.Rule   `name:"w-"`
	F278x tok.Rule
	F279x []tok.Rule
	F280x tok.Rule
	F281x struct{ A tok.Rule } `name:"a"`
	f282x tok.Rule             `json:"j" name:"e."`
	F283x tok.Rule             `name:"a+b"`
	F284x tok.Rule             `x:"" name:"a+b"`
	F285x tok.Rule             `json:"j" name:"a_b"`
	F286x struct{ A tok.Rule }
	F287x tok.Rule `x:"" name:"a"`
	F288x string   `json:"j" name:"a+b"`
	F289x tok.Rule
	F290x tok.Rule             `json:"j" name:"x1"`
	F291x tok.Rule             `name:"rule"`
	F292x tok.Rule             `json:"name"`
	F293x tok.Rule             `x:"" name:"a_b"`
	F294x tok.Rule             `name:"Value"`
	F295x tok.Rule             `json:"j" name:"Z"`
	f296x tok.Rule             `name:"r_"`
	F297x tok.Rule             `json:"name"`
	F298x struct{ A tok.Rule } `name:"Z"`
	F299x myRule               `name:"q+"`
	F300x tok.Rule             `x:"" name:"Value"`
	F301x tok.Rule             `name:"w-"`
	F302x tok.Rule             `json:"j" name:"a+b"`
	F303x tok.Rule             `name:"zZ9"`
	F304x struct{ A tok.Rule } `json:"j" name:"Value"`
	F305x tok.Rule             `x:"" name:"w-"`
	F306x tok.Rule             `name:"a"`
	F307x tok.Rule             `name:"r_"`
	F308x tok.Rule             `x:"" name:"1a"`
	F309x tok.Rule
}

func (g *gram77) Read(s *tok.Scanner) error { return nil }
func (g *gram77) What() string              { return "gram" }
func (g *gram77) Grammar() []*tok.Rule      { return tok.CollectRules(g) }
func (g *gram77) rules() []*tok.Rule {
	return []*tok.Rule{&g.F000x, &g.F001x, &g.F002x, &g.F003x, &g.F005x, &g.F006x, &g.F007x, &g.F008x, &g.F010x, &g.F011x, &g.F012x, &g.F013x, &g.F016x, &g.F017x, &g.F018x, &g.F019x, &g.F020x, &g.F021x, &g.F022x, &g.F023x, &g.F024x, &g.F026x, &g.F027x, &g.F028x, &g.F029x, &g.F030x, &g.F031x, &g.F032x, &g.F034x, &g.F036x, &g.F037x, &g.F038x, &g.F040x, &g.F041x, &g.F042x, &g.F044x, &g.F045x, &g.F046x, &g.F047x, &g.F048x, &g.F049x, &g.F052x, &g.F053x, &g.F054x, &g.F055x, &g.F056x, &g.F058x, &g.F059x, &g.F060x, &g.F062x, &g.F064x, &g.F065x, &g.F066x, &g.F067x, &g.F068x, &g.F071x, &g.F072x, &g.F073x, &g.F074x, &g.F075x, &g.F076x, &g.F077x, &g.F078x, &g.F079x, &g.F080x, &g.F081x, &g.F082x, &g.F084x, &g.F085x, &g.F086x, &g.F087x, &g.F088x, &g.F089x, &g.F090x, &g.F091x, &g.F092x, &g.F093x, &g.F094x, &g.F095x, &g.F096x, &g.F097x, &g.F098x, &g.F099x, &g.F101x, &g.F103x, &g.F105x, &g.F106x, &g.F108x, &g.F109x, &g.F112x, &g.F113x, &g.F114x, &g.F117x, &g.F118x, &g.F120x, &g.F121x, &g.F123x, &g.F124x, &g.F125x, &g.F127x, &g.F128x, &g.F131x, &g.F133x, &g.F134x, &g.F135x, &g.F136x, &g.F137x, &g.F138x, &g.F139x, &g.F140x, &g.F142x, &g.F143x, &g.F144x, &g.F146x, &g.F147x, &g.F148x, &g.F149x, &g.F150x, &g.F151x, &g.F152x, &g.F153x, &g.F154x, &g.F156x, &g.F157x, &g.F158x, &g.F159x, &g.F160x, &g.F161x, &g.F162x, &g.F163x, &g.F164x, &g.F167x, &g.F168x, &g.F169x, &g.F171x, &g.F172x, &g.F173x, &g.F174x, &g.F175x, &g.F176x, &g.F177x, &g.F179x, &g.F180x, &g.F181x, &g.F182x, &g.F183x, &g.F184x, &g.F185x, &g.F186x, &g.F187x, &g.F189x, &g.F190x, &g.F193x, &g.F194x, &g.F195x, &g.F196x, &g.F197x, &g.F198x, &g.F201x, &g.F203x, &g.F204x, &g.F205x, &g.F207x, &g.F208x, &g.F209x, &g.F211x, &g.F212x, &g.F214x, &g.F217x, &g.F219x, &g.F220x, &g.F222x, &g.F225x, &g.F226x, &g.F228x, &g.F229x, &g.F230x, &g.F231x, &g.F232x, &g.F233x, &g.F234x, &g.F235x, &g.F236x, &g.F237x, &g.F239x, &g.F240x, &g.F243x, &g.F244x, &g.F245x, &g.F248x, &g.F249x, &g.F250x, &g.F251x, &g.F252x, &g.F254x, &g.F257x, &g.F258x, &g.F259x, &g.F260x, &g.F261x, &g.F262x, &g.F263x, &g.F266x, &g.F267x, &g.F270x, &g.F273x, &g.F274x, &g.F276x, &g.F277x, &g.F278x, &g.F280x, &g.F283x, &g.F284x, &g.F285x, &g.F287x, &g.F289x, &g.F290x, &g.F291x, &g.F292x, &g.F293x, &g.F294x, &g.F295x, &g.F297x, &g.F300x, &g.F301x, &g.F302x, &g.F303x, &g.F305x, &g.F306x, &g.F307x, &g.F308x, &g.F309x}
}
func (g *gram77) fields() []field {
	return []field{
		{"F000x", "rule", 1, "x1"},
		{"F001x", "rule", 1, "e."},
		{"F002x", "rule", 1, "w-"},
		{"F003x", "rule", 0, ""},
		{"f004x", "hidden", 0, ""},
		{"F005x", "rule", 1, "Z"},
		{"F006x", "rule", 1, "B2-c.d_e+f"},
		{"F007x", "rule", 1, "a.b"},
		{"F008x", "rule", 1, "r_"},
		{"F009x", "other", 1, "Z"},
		{"F010x", "rule", 0, ""},
		{"F011x", "rule", 1, "w-"},
		{"F012x", "rule", 1, "rule"},
		{"F013x", "rule", 1, "zZ9"},
		{"f014x", "hidden", 1, "a_b"},
		{"f015x", "hidden", 1, "a.b"},
		{"F016x", "rule", 0, ""},
		{"F017x", "rule", 0, ""},
		{"F018x", "rule", 1, "q+"},
		{"F019x", "rule", 0, ""},
		{"F020x", "rule", 0, ""},
		{"F021x", "rule", 1, "a_b"},
		{"F022x", "rule", 1, "e."},
		{"F023x", "rule", 1, "rule"},
		{"F024x", "rule", 0, ""},
		{"F025x", "other", 0, ""},
		{"F026x", "rule", 1, "rule"},
		{"F027x", "rule", 1, "a+b"},
		{"F028x", "rule", 0, ""},
		{"F029x", "rule", 1, "zZ9"},
		{"F030x", "rule", 0, ""},
		{"F031x", "rule", 0, ""},
		{"F032x", "rule", 1, "Z"},
		{"F033x", "other", 1, "r_"},
		{"F034x", "rule", 0, ""},
		{"f035x", "hidden", 1, "a"},
		{"F036x", "rule", 0, ""},
		{"F037x", "rule", 1, "a-b"},
		{"F038x", "rule", 1, "x1"},
		{"f039x", "hidden", 1, "a+b"},
		{"F040x", "rule", 1, "Z"},
		{"F041x", "rule", 1, "r_"},
		{"F042x", "rule", 1, "w-"},
		{"F043x", "other", 1, "a"},
		{"F044x", "rule", 0, ""},
		{"F045x", "rule", 1, "Value"},
		{"F046x", "rule", 1, "r_"},
		{"F047x", "rule", 0, ""},
		{"F048x", "rule", 1, "a.b"},
		{"F049x", "rule", 1, "rule"},
		{"F050x", "other", 1, "a"},
		{"f051x", "hidden", 1, "x1"},
		{"F052x", "rule", 0, ""},
		{"F053x", "rule", 1, "Z"},
		{"F054x", "rule", 1, "w-"},
		{"F055x", "rule", 1, "r_"},
		{"F056x", "rule", 1, "a_b"},
		{"f057x", "hidden", 1, "a+b"},
		{"F058x", "rule", 1, "a-b"},
		{"F059x", "rule", 1, "a_b"},
		{"F060x", "rule", 0, ""},
		{"f061x", "hidden", 1, "a+b"},
		{"F062x", "rule", 0, ""},
		{"f063x", "hidden", 0, ""},
		{"F064x", "rule", 1, "a+b"},
		{"F065x", "rule", 1, "Value"},
		{"F066x", "rule", 1, "a"},
		{"F067x", "rule", 1, "a"},
		{"F068x", "rule", 0, ""},
		{"F069x", "other", 0, ""},
		{"F070x", "other", 1, "x1"},
		{"F071x", "rule", 1, "a_b"},
		{"F072x", "rule", 1, "Z"},
		{"F073x", "rule", 1, "a_b"},
		{"F074x", "rule", 0, ""},
		{"F075x", "rule", 0, ""},
		{"F076x", "rule", 0, ""},
		{"F077x", "rule", 1, "B2-c.d_e+f"},
		{"F078x", "rule", 1, "B2-c.d_e+f"},
		{"F079x", "rule", 1, "a-b"},
		{"F080x", "rule", 1, "a-b"},
		{"F081x", "rule", 1, "a_b"},
		{"F082x", "rule", 1, "q+"},
		{"F083x", "other", 0, ""},
		{"F084x", "rule", 1, "r_"},
		{"F085x", "rule", 1, "a-b"},
		{"F086x", "rule", 1, "w-"},
		{"F087x", "rule", 1, "x1"},
		{"F088x", "rule", 1, "B2-c.d_e+f"},
		{"F089x", "rule", 1, "w-"},
		{"F090x", "rule", 1, "a-b"},
		{"F091x", "rule", 1, "B2-c.d_e+f"},
		{"F092x", "rule", 1, "Z"},
		{"F093x", "rule", 1, "r_"},
		{"F094x", "rule", 0, ""},
		{"F095x", "rule", 1, "a+b"},
		{"F096x", "rule", 1, "e."},
		{"F097x", "rule", 1, "rule"},
		{"F098x", "rule", 1, "x1"},
		{"F099x", "rule", 0, ""},
		{"f100x", "hidden", 1, "e."},
		{"F101x", "rule", 0, ""},
		{"F102x", "other", 1, "Value"},
		{"F103x", "rule", 1, "q+"},
		{"F104x", "other", 1, "w-"},
		{"F105x", "rule", 1, "a_b"},
		{"F106x", "rule", 1, "e."},
		{"F107x", "other", 1, "B2-c.d_e+f"},
		{"F108x", "rule", 0, ""},
		{"F109x", "rule", 1, "zZ9"},
		{"f110x", "hidden", 1, "B2-c.d_e+f"},
		{"f111x", "hidden", 1, "x1"},
		{"F112x", "rule", 1, "rule"},
		{"F113x", "rule", 0, ""},
		{"F114x", "rule", 0, ""},
		{"F115x", "other", 1, "w-"},
		{"F116x", "other", 0, ""},
		{"F117x", "rule", 1, "e."},
		{"F118x", "rule", 1, "a-b"},
		{"F119x", "other", 1, "a-b"},
		{"F120x", "rule", 0, ""},
		{"F121x", "rule", 1, "rule"},
		{"F122x", "other", 1, "a.b"},
		{"F123x", "rule", 0, ""},
		{"F124x", "rule", 1, "q+"},
		{"F125x", "rule", 1, "a.b"},
		{"F126x", "other", 1, "Value"},
		{"F127x", "rule", 1, "a+b"},
		{"F128x", "rule", 1, "a"},
		{"f129x", "hidden", 0, ""},
		{"F130x", "other", 1, "r_"},
		{"F131x", "rule", 1, "rule"},
		{"F132x", "other", 1, "w-"},
		{"F133x", "rule", 1, "x1"},
		{"F134x", "rule", 1, "B2-c.d_e+f"},
		{"F135x", "rule", 1, "zZ9"},
		{"F136x", "rule", 1, "Z"},
		{"F137x", "rule", 1, "rule"},
		{"F138x", "rule", 1, "r_"},
		{"F139x", "rule", 0, ""},
		{"F140x", "rule", 1, "a-b"},
		{"f141x", "hidden", 1, "Value"},
		{"F142x", "rule", 0, ""},
		{"F143x", "rule", 1, "x1"},
		{"F144x", "rule", 1, "a_b"},
		{"F145x", "other", 1, "r_"},
		{"F146x", "rule", 1, "x1"},
		{"F147x", "rule", 1, "w-"},
		{"F148x", "rule", 1, "q+"},
		{"F149x", "rule", 1, "w-"},
		{"F150x", "rule", 0, ""},
		{"F151x", "rule", 1, "Z"},
		{"F152x", "rule", 1, "e."},
		{"F153x", "rule", 1, "zZ9"},
		{"F154x", "rule", 1, "zZ9"},
		{"F155x", "other", 1, "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"},
		{"F156x", "rule", 1, "Value"},
		{"F157x", "rule", 1, "a"},
		{"F158x", "rule", 1, "Z"},
		{"F159x", "rule", 0, ""},
		{"F160x", "rule", 0, ""},
		{"F161x", "rule", 1, "a.b"},
		{"F162x", "rule", 1, "e."},
		{"F163x", "rule", 0, ""},
		{"F164x", "rule", 1, "a_b"},
		{"F165x", "other", 1, "r_"},
		{"F166x", "other", 0, ""},
		{"F167x", "rule", 1, "q+"},
		{"F168x", "rule", 1, "r_"},
		{"F169x", "rule", 1, "a"},
		{"F170x", "other", 1, "e."},
		{"F171x", "rule", 0, ""},
		{"F172x", "rule", 1, "r_"},
		{"F173x", "rule", 0, ""},
		{"F174x", "rule", 1, "B2-c.d_e+f"},
		{"F175x", "rule", 1, "zZ9"},
		{"F176x", "rule", 1, "x1"},
		{"F177x", "rule", 1, "Z"},
		{"f178x", "hidden", 0, ""},
		{"F179x", "rule", 1, "rule"},
		{"F180x", "rule", 1, "q+"},
		{"F181x", "rule", 0, ""},
		{"F182x", "rule", 1, "e."},
		{"F183x", "rule", 1, "zZ9"},
		{"F184x", "rule", 0, ""},
		{"F185x", "rule", 1, "r_"},
		{"F186x", "rule", 1, "r_"},
		{"F187x", "rule", 1, "q+"},
		{"F188x", "other", 1, "rule"},
		{"F189x", "rule", 0, ""},
		{"F190x", "rule", 1, "a"},
		{"F191x", "other", 0, ""},
		{"f192x", "hidden", 1, "x1"},
		{"F193x", "rule", 0, ""},
		{"F194x", "rule", 1, "B2-c.d_e+f"},
		{"F195x", "rule", 0, ""},
		{"F196x", "rule", 1, "a"},
		{"F197x", "rule", 0, ""},
		{"F198x", "rule", 0, ""},
		{"f199x", "hidden", 1, "B2-c.d_e+f"},
		{"F200x", "other", 1, "w-"},
		{"F201x", "rule", 1, "r_"},
		{"f202x", "hidden", 0, ""},
		{"F203x", "rule", 0, ""},
		{"F204x", "rule", 1, "rule"},
		{"F205x", "rule", 1, "q+"},
		{"f206x", "hidden", 1, "a-b"},
		{"F207x", "rule", 1, "B2-c.d_e+f"},
		{"F208x", "rule", 1, "e."},
		{"F209x", "rule", 0, ""},
		{"F210x", "other", 1, "Z"},
		{"F211x", "rule", 1, "B2-c.d_e+f"},
		{"F212x", "rule", 1, "q+"},
		{"F213x", "other", 1, "a-b"},
		{"F214x", "rule", 0, ""},
		{"F215x", "other", 0, ""},
		{"f216x", "hidden", 1, "Z"},
		{"F217x", "rule", 0, ""},
		{"F218x", "other", 1, "a_b"},
		{"F219x", "rule", 1, "x1"},
		{"F220x", "rule", 1, "w-"},
		{"f221x", "hidden", 1, "a"},
		{"F222x", "rule", 1, "zZ9"},
		{"F223x", "other", 0, ""},
		{"f224x", "hidden", 1, "a-b"},
		{"F225x", "rule", 1, "a-b"},
		{"F226x", "rule", 0, ""},
		{"f227x", "hidden", 1, "Value"},
		{"F228x", "rule", 0, ""},
		{"F229x", "rule", 0, ""},
		{"F230x", "rule", 0, ""},
		{"F231x", "rule", 0, ""},
		{"F232x", "rule", 1, "a_b"},
		{"F233x", "rule", 1, "B2-c.d_e+f"},
		{"F234x", "rule", 0, ""},
		{"F235x", "rule", 0, ""},
		{"F236x", "rule", 0, ""},
		{"F237x", "rule", 1, "Z"},
		{"f238x", "hidden", 0, ""},
		{"F239x", "rule", 1, "Z"},
		{"F240x", "rule", 0, ""},
		{"F241x", "other", 1, "B2-c.d_e+f"},
		{"F242x", "other", 0, ""},
		{"F243x", "rule", 0, ""},
		{"F244x", "rule", 1, "x1"},
		{"F245x", "rule", 0, ""},
		{"f246x", "hidden", 1, "q+"},
		{"F247x", "other", 1, "rule"},
		{"F248x", "rule", 1, "q+"},
		{"F249x", "rule", 1, "a.b"},
		{"F250x", "rule", 1, "q+"},
		{"F251x", "rule", 1, "rule"},
		{"F252x", "rule", 1, "rule"},
		{"F253x", "other", 1, "q+"},
		{"F254x", "rule", 1, "q+"},
		{"f255x", "hidden", 1, "a.b"},
		{"f256x", "hidden", 1, "q+"},
		{"F257x", "rule", 0, ""},
		{"F258x", "rule", 1, "w-"},
		{"F259x", "rule", 0, ""},
		{"F260x", "rule", 1, "q+"},
		{"F261x", "rule", 1, "q+"},
		{"F262x", "rule", 0, ""},
		{"F263x", "rule", 1, "x1"},
		{"f264x", "hidden", 0, ""},
		{"F265x", "other", 0, ""},
		{"F266x", "rule", 1, "a"},
		{"F267x", "rule", 1, "Z"},
		{"F268x", "other", 1, "Value"},
		{"f269x", "hidden", 1, "e."},
		{"F270x", "rule", 1, "zZ9"},
		{"f271x", "hidden", 1, "a"},
		{"f272x", "hidden", 1, "e."},
		{"F273x", "rule", 0, ""},
		{"F274x", "rule", 1, "Value"},
		{"F275x", "other", 1, "Value"},
		{"F276x", "rule", 1, "x1"},
		{"F277x", "rule", 1, "w-"},
		{"F278x", "rule", 0, ""},
		{"F279x", "other", 0, ""},
		{"F280x", "rule", 0, ""},
		{"F281x", "other", 1, "a"},
		{"f282x", "hidden", 1, "e."},
		{"F283x", "rule", 1, "a+b"},
		{"F284x", "rule", 1, "a+b"},
		{"F285x", "rule", 1, "a_b"},
		{"F286x", "other", 0, ""},
		{"F287x", "rule", 1, "a"},
		{"F288x", "other", 1, "a+b"},
		{"F289x", "rule", 0, ""},
		{"F290x", "rule", 1, "x1"},
		{"F291x", "rule", 1, "rule"},
		{"F292x", "rule", 0, ""},
		{"F293x", "rule", 1, "a_b"},
		{"F294x", "rule", 1, "Value"},
		{"F295x", "rule", 1, "Z"},
		{"f296x", "hidden", 1, "r_"},
		{"F297x", "rule", 0, ""},
		{"F298x", "other", 1, "Z"},
		{"F299x", "other", 1, "q+"},
		{"F300x", "rule", 1, "Value"},
		{"F301x", "rule", 1, "w-"},
		{"F302x", "rule", 1, "a+b"},
		{"F303x", "rule", 1, "zZ9"},
		{"F304x", "other", 1, "Value"},
		{"F305x", "rule", 1, "w-"},
		{"F306x", "rule", 1, "a"},
		{"F307x", "rule", 1, "r_"},
		{"F308x", "rule", 1, "1a"},
		{"F309x", "rule", 0, ""},
	}
}

var gramCases = []func() gramCase{
	func() gramCase { return &gram0{} },
	func() gramCase { return &gram1{} },
	func() gramCase { return &gram2{} },
	func() gramCase { return &gram3{} },
	func() gramCase { return &gram4{} },
	func() gramCase { return &gram5{} },
	func() gramCase { return &gram6{} },
	func() gramCase { return &gram7{} },
	func() gramCase { return &gram8{} },
	func() gramCase { return &gram9{} },
	func() gramCase { return &gram10{} },
	func() gramCase { return &gram11{} },
	func() gramCase { return &gram12{} },
	func() gramCase { return &gram13{} },
	func() gramCase { return &gram14{} },
	func() gramCase { return &gram15{} },
	func() gramCase { return &gram16{} },
	func() gramCase { return &gram17{} },
	func() gramCase { return &gram18{} },
	func() gramCase { return &gram19{} },
	func() gramCase { return &gram20{} },
	func() gramCase { return &gram21{} },
	func() gramCase { return &gram22{} },
	func() gramCase { return &gram23{} },
	func() gramCase { return &gram24{} },
	func() gramCase { return &gram25{} },
	func() gramCase { return &gram26{} },
	func() gramCase { return &gram27{} },
	func() gramCase { return &gram28{} },
	func() gramCase { return &gram29{} },
	func() gramCase { return &gram30{} },
	func() gramCase { return &gram31{} },
	func() gramCase { return &gram32{} },
	func() gramCase { return &gram33{} },
	func() gramCase { return &gram34{} },
	func() gramCase { return &gram35{} },
	func() gramCase { return &gram36{} },
	func() gramCase { return &gram37{} },
	func() gramCase { return &gram38{} },
	func() gramCase { return &gram39{} },
	func() gramCase { return &gram40{} },
	func() gramCase { return &gram41{} },
	func() gramCase { return &gram42{} },
	func() gramCase { return &gram43{} },
	func() gramCase { return &gram44{} },
	func() gramCase { return &gram45{} },
	func() gramCase { return &gram46{} },
	func() gramCase { return &gram47{} },
	func() gramCase { return &gram48{} },
	func() gramCase { return &gram49{} },
	func() gramCase { return &gram50{} },
	func() gramCase { return &gram51{} },
	func() gramCase { return &gram52{} },
	func() gramCase { return &gram53{} },
	func() gramCase { return &gram54{} },
	func() gramCase { return &gram55{} },
	func() gramCase { return &gram56{} },
	func() gramCase { return &gram57{} },
	func() gramCase { return &gram58{} },
	func() gramCase { return &gram59{} },
	func() gramCase { return &gram60{} },
	func() gramCase { return &gram61{} },
	func() gramCase { return &gram62{} },
	func() gramCase { return &gram63{} },
	func() gramCase { return &gram64{} },
	func() gramCase { return &gram65{} },
	func() gramCase { return &gram66{} },
	func() gramCase { return &gram67{} },
	func() gramCase { return &gram68{} },
	func() gramCase { return &gram69{} },
	func() gramCase { return &gram70{} },
	func() gramCase { return &gram71{} },
	func() gramCase { return &gram72{} },
	func() gramCase { return &gram73{} },
	func() gramCase { return &gram74{} },
	func() gramCase { return &gram75{} },
	func() gramCase { return &gram76{} },
	func() gramCase { return &gram77{} },
}

const bigGrams = 6
