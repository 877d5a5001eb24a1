// Command core decides the sequential properties of every package but linebreak and the trie.
package main

import "github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"

func main() {
	mc.Main([]mc.Property{
		propC01(), propC02(),
		propC04(), propC05(), propC06(),
		propC07(), propC08(), propC09(),
		propC12(), propC13(), propC14(),
		propC15(), propC16(),
		propC17(), propC18(),
	})
}
