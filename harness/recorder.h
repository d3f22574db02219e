// A progress indicator that checks what a user of it would see.
#pragma once
#include "../mc/mc.h"
#include <tpie/progress_indicator_base.h>

/// Never decreases, never exceeds the range; done() advances it to the end as the terminal indicators do.
class recorder : public tpie::progress_indicator_base {
public:
	explicit recorder(tpie::stream_size_type range, bool strict = false) : progress_indicator_base(range), m_strict(strict) {}
	void init(tpie::stream_size_type range = 0) override {
		m_last = 0;
		++inits;
		progress_indicator_base::init(range);
	}
	void refresh() override {
		++refreshes;
		tpie::stream_size_type c = get_current(), r = get_range();
		MC_CHECK(c >= m_last, "decreases", "the progress at the root goes from " << m_last << " to " << c << " of " << r);
		MC_CHECK(c <= r, "exceeds", "the progress at the root is " << c << " of " << r);
		m_last = c;
	}
	void done() override {
		++dones;
		if (m_strict) return; // the parts have to add up by themselves
		m_current = m_range;
		refresh();
	}
	void push_breadcrumb(const char *, tpie::description_importance) override { ++crumbs; }
	void pop_breadcrumb() override { --crumbs; MC_CHECK(crumbs >= 0, "crumbs", "a breadcrumb is popped that was not pushed"); }
	/// When every part is done
	void check_complete() {
		MC_CHECK(get_current() == get_range(), "incomplete", "every part is done, but the progress at the root is " << get_current() << " of " << get_range());
		MC_CHECK(crumbs == 0, "crumbs", crumbs << " breadcrumbs are left when every part is done");
	}
	int inits = 0, dones = 0, crumbs = 0;
	long refreshes = 0;
private:
	tpie::stream_size_type m_last = 0;
	bool m_strict;
};
