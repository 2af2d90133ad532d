package main

func assumptions(prop string) []string {
	a := []string{
		"Generated-input search: absence of a violation is evidence, not proof.",
		"The oracles (independent PE/COFF/resource/VERSIONINFO/ICO/DIB/XML readers and reference models in /verif/harness) are trusted.",
	}
	return append(a, extraAssumptions[prop]...)
}

var extraAssumptions = map[string][]string{}
