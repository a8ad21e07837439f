package main

import "verif/schema"

func init() {
	checks["C22"] = func(c *Check) error {
		c.rule = "each case is one command to Go code generated with the three hooks set (one or two fields of several types), also after or while other generators in the process, or the same one before, used other hooks: encode, decode fresh or into a used value, decode truncated or nil; the reference knows what the hooks write as fields in front of every message; distinct by type and value"
		fs, _ := c.schemas(c.scale(40, 120))
		for i, f := range fs {
			f.AddHooks([]string{"string", "int64", "two"}[i%3])
		}
		ts := typesOf(fs)
		return parallel(func() error { return c.hooks("v1", fs, ts) }, func() error { return c.hooks("v2", fs, ts) })
	}
}

func (c *Check) hooks(ver string, fs []*schema.File, ts []mtype) error {
	im, bad, err := c.goGen(ver+"-hooks", fs, func(f *schema.File, what string) {
		c.note("go-"+ver+" schema "+base(f), false)
		c.violate(what, f.Text())
	})
	if err != nil || im == nil {
		return err
	}
	c.count("schemas compiled with hooks go-"+ver, len(fs)-len(bad))
	c.goRoundTrips(im, ver+"-hooks", keep(ts, bad))
	return nil
}
