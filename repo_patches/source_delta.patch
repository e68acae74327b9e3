From 2fdf963590dd3c733b2fde253db6159739022e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/37] fix: count the TOC entries of instance domains without
 instances

A registered instance domain with no instances has a TOC entry of its
own but no instances section. tocCount only looked at the instance count,
so Start panicked with a negative WaitGroup counter.
---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 282efe3..2e07645 100644
--- a/client.go
+++ b/client.go
@@ -159,8 +159,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From 7686fe56d8c3f133473c20182c89119eb6956bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/37] fix: write the MMV tag only after the generation number

---
 client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 2e07645..9d10c9f 100644
--- a/client.go
+++ b/client.go
@@ -278,9 +278,6 @@ func (c *PCPClient) start() {
 }
 
 func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
-	// tag
-	c.writer.MustWriteString("MMV", 0)
-
 	var pos int
 
 	// version
@@ -309,6 +306,10 @@ func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
 	// cluster identifier
 	_ = c.writer.MustWriteUint32(c.clusterID, pos)
 
+	// tag, written after the generation so that the file never has a valid tag
+	// while both the generation numbers are still zero
+	c.writer.MustWriteString("MMV", 0)
+
 	// NOTE: the order here is important, should be same as in start()
 	// or deadlock
 	genc <- gen
-- 
2.43.0


From 556a28219348d4eea148ca3011bee2ce0e9c957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 03/37] fix: lock a metric while Start writes its value and
 installs its update closure

---
 client.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 9d10c9f..de4844e 100644
--- a/client.go
+++ b/client.go
@@ -465,16 +465,22 @@ func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
 func (c *PCPClient) writeMetrics() {
 	var wg sync.WaitGroup
 
-	launchSingletonMetric := func(metric *pcpSingletonMetric) {
+	// a metric is locked while it is written, so that a concurrent update either
+	// happens before, and is written here, or after, and updates the mapping
+	launchSingletonMetric := func(metric *pcpSingletonMetric, lock sync.Locker) {
 		go func() {
+			lock.Lock()
 			c.writeSingletonMetric(metric)
+			lock.Unlock()
 			wg.Done()
 		}()
 	}
 
-	launchInstanceMetric := func(metric *pcpInstanceMetric) {
+	launchInstanceMetric := func(metric *pcpInstanceMetric, lock sync.Locker) {
 		go func() {
+			lock.Lock()
 			c.writeInstanceMetric(metric)
+			lock.Unlock()
 			wg.Done()
 		}()
 	}
@@ -483,21 +489,21 @@ func (c *PCPClient) writeMetrics() {
 	for _, m := range c.r.metrics {
 		switch metric := m.(type) {
 		case *PCPSingletonMetric:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPCounter:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPGauge:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPTimer:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPInstanceMetric:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPCounterVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPGaugeVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPHistogram:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		}
 	}
 
-- 
2.43.0


From e3453fd9eb969a6f148cc70df702e40fea57325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 04/37] fix: stop writing to the mapping once Stop has removed
 it

---
 client.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/client.go b/client.go
index de4844e..deeac88 100644
--- a/client.go
+++ b/client.go
@@ -657,11 +657,52 @@ func (c *PCPClient) Stop() error {
 }
 
 func (c *PCPClient) stop() {
+	c.detachMetrics()
+
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
 }
 
+// detachMetrics makes later updates of the metrics leave the mapping alone,
+// which is needed before it goes away
+func (c *PCPClient) detachMetrics() {
+	detachSingletonMetric := func(metric *pcpSingletonMetric, lock sync.Locker) {
+		lock.Lock()
+		metric.update = nil
+		lock.Unlock()
+	}
+
+	detachInstanceMetric := func(metric *pcpInstanceMetric, lock sync.Locker) {
+		lock.Lock()
+		for _, i := range metric.vals {
+			i.update = nil
+		}
+		lock.Unlock()
+	}
+
+	for _, m := range c.r.metrics {
+		switch metric := m.(type) {
+		case *PCPSingletonMetric:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPCounter:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPGauge:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPTimer:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPInstanceMetric:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPCounterVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPGaugeVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPHistogram:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		}
+	}
+}
+
 // MustStop is a stop that panics
 func (c *PCPClient) MustStop() {
 	if err := c.Stop(); err != nil {
-- 
2.43.0


From c65a3811a4c154f5aeca3d8734b15783dbcda7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 05/37] fix: compare instances as sets in MatchInstances

---
 instance_domain.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..1ac3323 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -101,17 +101,16 @@ func (indom *PCPInstanceDomain) Instances() []string {
 // MatchInstances returns true if the passed InstanceDomain
 // has exactly the same instances as the passed array
 func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
-	if len(ins) != len(indom.instances) {
-		return false
-	}
+	distinct := make(map[string]bool, len(ins))
 
 	for _, i := range ins {
 		if _, ok := indom.instances[i]; !ok {
 			return false
 		}
+		distinct[i] = true
 	}
 
-	return true
+	return len(distinct) == len(indom.instances)
 }
 
 // Description returns the description for PCPInstanceDomain
-- 
2.43.0


From 8559041f947cf87df182dde47cb5838986e3cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 06/37] fix: refuse names, descriptions and strings that do not
 fit a string record

---
 instance_domain.go | 6 +++++-
 metrics.go         | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index 1ac3323..c7b6fd4 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -52,10 +52,14 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		longDescription = desc[1]
 	}
 
+	if len(shortDescription) >= StringLength || len(longDescription) >= StringLength {
+		return nil, errors.New("Instance Domain description is too long")
+	}
+
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
-		if len(instance) > StringLength {
+		if len(instance) >= StringLength {
 			return nil, errors.Errorf("instance name %v is too long", instance)
 		}
 
diff --git a/metrics.go b/metrics.go
index cb55701..06ebe69 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,8 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		// a stored string is NUL terminated
+		return m == StringType && len(v) < StringLength
 	}
 	return false
 }
@@ -481,7 +482,7 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("Metric name cannot be empty")
 	}
 
-	if len(n) > StringLength {
+	if len(n) >= StringLength {
 		return nil, errors.New("metric name is too long")
 	}
 
@@ -499,6 +500,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		longdesc = desc[1]
 	}
 
+	if len(shortdesc) >= StringLength || len(longdesc) >= StringLength {
+		return nil, errors.New("metric description is too long")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From e7eebb8f75ab5f85b19b02771dccf9e88d50381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 07/37] fix: make registration atomic and guard the registry's
 state with one lock

---
 client.go   |  13 ++++---
 registry.go | 107 ++++++++++++++++++++++++++++++++++++----------------
 2 files changed, 83 insertions(+), 37 deletions(-)

diff --git a/client.go b/client.go
index deeac88..bcd234f 100644
--- a/client.go
+++ b/client.go
@@ -148,7 +148,7 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.r.mapped {
+	if c.r.isMapped() {
 		return errors.New("cannot set mmv flag for an active client")
 	}
 
@@ -181,7 +181,7 @@ func (c *PCPClient) Length() int {
 		MetricLength   = Metric1Length
 	)
 
-	if c.r.version2 {
+	if c.r.isVersion2() {
 		InstanceLength = Instance2Length
 		MetricLength = Metric2Length
 	}
@@ -200,16 +200,19 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// nothing can be registered from here on, so that what is written matches the length
+	wasMapped := c.r.setMapped(true)
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.setMapped(wasMapped)
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -639,13 +642,13 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if !c.r.isMapped() {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
 	c.stop()
 
-	c.r.mapped = false
+	c.r.setMapped(false)
 
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
diff --git a/registry.go b/registry.go
index 1d66249..cda46c1 100644
--- a/registry.go
+++ b/registry.go
@@ -49,9 +49,8 @@ type PCPRegistry struct {
 	instanceDomains map[string]*PCPInstanceDomain // a cache for instanceDomains
 	metrics         map[string]PCPMetric          // a cache for metrics
 
-	// locks
-	indomlock   sync.RWMutex
-	metricslock sync.RWMutex
+	// guards everything in the registry
+	lock sync.RWMutex
 
 	// offsets
 	instanceoffset int
@@ -79,35 +78,43 @@ func NewPCPRegistry() *PCPRegistry {
 
 // InstanceCount returns the number of instances across all indoms in the registry
 func (r *PCPRegistry) InstanceCount() int {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return r.instanceCount
 }
 
 // InstanceDomainCount returns the number of instance domains in the registry
 func (r *PCPRegistry) InstanceDomainCount() int {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return len(r.instanceDomains)
 }
 
 // MetricCount returns the number of metrics in the registry
 func (r *PCPRegistry) MetricCount() int {
-	r.metricslock.RLock()
-	defer r.metricslock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return len(r.metrics)
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.instanceCount
 	}
 
 	return r.stringcount
@@ -115,8 +122,8 @@ func (r *PCPRegistry) StringCount() int {
 
 // HasInstanceDomain returns true if the registry already has an indom of the specified name
 func (r *PCPRegistry) HasInstanceDomain(name string) bool {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	_, present := r.instanceDomains[name]
 	return present
@@ -124,26 +131,65 @@ func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 
 // HasMetric returns true if the registry already has a metric of the specified name
 func (r *PCPRegistry) HasMetric(name string) bool {
-	r.metricslock.RLock()
-	defer r.metricslock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	_, present := r.metrics[name]
 	return present
 }
 
+// setMapped records whether a mapping is active, and returns the previous state
+func (r *PCPRegistry) setMapped(mapped bool) bool {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	previous := r.mapped
+	r.mapped = mapped
+	return previous
+}
+
+// isMapped returns true if a mapping is active
+func (r *PCPRegistry) isMapped() bool {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.mapped
+}
+
+// isVersion2 returns true if the registry needs mmv version 2
+func (r *PCPRegistry) isVersion2() bool {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.version2
+}
+
+// instanceDomain returns the instance domain with the passed name, nil if there is none
+func (r *PCPRegistry) instanceDomain(name string) *PCPInstanceDomain {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.instanceDomains[name]
+}
+
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
-	if r.HasInstanceDomain(indom.Name()) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	if _, present := r.instanceDomains[indom.Name()]; present {
 		return errors.New("InstanceDomain is already defined for the current registry")
 	}
 
-	r.indomlock.Lock()
-	defer r.indomlock.Unlock()
-
 	if r.mapped {
 		return errors.New("Cannot add an indom when a mapping is active")
 	}
 
+	r.addInstanceDomain(indom)
+	return nil
+}
+
+func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) {
 	r.instanceDomains[indom.Name()] = indom.(*PCPInstanceDomain)
 	r.instanceCount += indom.InstanceCount()
 
@@ -162,8 +208,6 @@ func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
 	if indom.(*PCPInstanceDomain).longDescription != "" {
 		r.stringcount++
 	}
-
-	return nil
 }
 
 func (r *PCPRegistry) addMetric(m PCPMetric) {
@@ -194,27 +238,26 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[m.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
 	pcpm := m.(PCPMetric)
 
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
-		if err != nil {
-			return err
+	if pcpm.Indom() != nil {
+		if _, present := r.instanceDomains[pcpm.Indom().Name()]; !present {
+			r.addInstanceDomain(pcpm.Indom())
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
@@ -294,13 +337,13 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		err error
 	)
 
-	if !r.HasInstanceDomain(indom) {
+	if known := r.instanceDomain(indom); known == nil {
 		id, err = r.AddInstanceDomainByName(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
+	} else if known.MatchInstances(instances) {
+		id = known
 	} else {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
-- 
2.43.0


From 2036312acd3bcc76a3c7ac75e785ea3dd6c19ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 08/37] fix: refer to the registered instance domain when a
 metric brings an equal one, refuse a different one

---
 client.go   | 3 ++-
 registry.go | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index bcd234f..25dd1e0 100644
--- a/client.go
+++ b/client.go
@@ -549,7 +549,8 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	// the metric can have its own copy of the registered instance domain
+	for name, i := range c.r.instanceDomains[m.indom.Name()].instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
diff --git a/registry.go b/registry.go
index cda46c1..db5e53f 100644
--- a/registry.go
+++ b/registry.go
@@ -253,7 +253,12 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if pcpm.Indom() != nil {
-		if _, present := r.instanceDomains[pcpm.Indom().Name()]; !present {
+		known, present := r.instanceDomains[pcpm.Indom().Name()]
+		if present && !known.MatchInstances(pcpm.Indom().Instances()) {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", known.Name())
+		}
+
+		if !present {
 			r.addInstanceDomain(pcpm.Indom())
 		}
 	}
-- 
2.43.0


From 12bee49f3ce0f9a6d254f4e462698fda5c0a8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 09/37] fix: leave no instance domain behind when registering a
 metric string fails

---
 registry.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/registry.go b/registry.go
index db5e53f..7ad513b 100644
--- a/registry.go
+++ b/registry.go
@@ -337,23 +337,20 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		return nil, errors.New("to define an instance metric, a Instances type is required")
 	}
 
-	var (
-		id  InstanceDomain
-		err error
-	)
+	var err error
 
-	if known := r.instanceDomain(indom); known == nil {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+	id := r.instanceDomain(indom)
+	if id == nil {
+		// registered along with the metric, if that is accepted
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if known.MatchInstances(instances) {
-		id = known
-	} else {
+	} else if !id.MatchInstances(instances) {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
 
-	m, err := NewPCPInstanceMetric(mp, name, id.(*PCPInstanceDomain), t, s, u)
+	m, err := NewPCPInstanceMetric(mp, name, id, t, s, u)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f49a88aec4aa5aaf6e1190e767c6830580685b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 10/37] fix: report an unknown instance even if a counter
 vector is incremented by zero

---
 metrics.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.go b/metrics.go
index 06ebe69..35301d8 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1199,15 +1199,15 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return errors.New("increment cannot be negative")
 	}
 
-	if inc == 0 {
-		return nil
-	}
-
 	v, err := c.valInstance(instance)
 	if err != nil {
 		return err
 	}
 
+	if inc == 0 {
+		return nil
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 214eb017a8a3c43d4ce7a9f700a809e85e238a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/37] fix: refuse counter increments that would overflow

---
 metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics.go b/metrics.go
index 35301d8..a5a2d22 100644
--- a/metrics.go
+++ b/metrics.go
@@ -730,6 +730,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v > math.MaxInt64-val {
+		return errors.Errorf("incrementing counter by %v would overflow, current value is %v", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1208,6 +1212,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return nil
 	}
 
+	if v.(int64) > math.MaxInt64-inc {
+		return errors.Errorf("incrementing instance %s by %v would overflow, current value is %v", instance, inc, v)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 2f76771770ebb75bf3e70d9ce837de99a3354299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 12/37] fix: swap the bounds PCPHistogram reports

---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index a5a2d22..ad58442 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1458,10 +1458,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From e153650e2157f060c6297f68c53762c9c629304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 13/37] fix: refuse to record a value a negative number of
 times

---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index ad58442..09c0aeb 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1532,6 +1532,10 @@ func (h *PCPHistogram) MustRecord(val int64) {
 
 // RecordN records multiple instances of the same value.
 func (h *PCPHistogram) RecordN(val, n int64) error {
+	if n < 0 {
+		return errors.Errorf("cannot record a value %v times", n)
+	}
+
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-- 
2.43.0


From 57c6157329a5b82fc5434d0c1c28cfb926f604f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 14/37] fix: replace dimension and scale when composing units
 instead of adding bits

---
 metrics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index 09c0aeb..1363b41 100644
--- a/metrics.go
+++ b/metrics.go
@@ -170,7 +170,8 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	m.repr &^= 0xF<<28 | 0xF<<16
+	m.repr |= uint32(s) & (0xF << 16)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -181,7 +182,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr &^= 0xF<<24 | 0xF<<12
+	m.repr |= uint32(t) & (0xF << 12)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -192,7 +194,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr &^= 0xF<<20 | 0xF<<8
+	m.repr |= uint32(c) & (0xF << 8)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
-- 
2.43.0


From 122ab1b647e37478d7eea3bc9d333ad7b9e979e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 15/37] fix: let a histogram record its highest value when a
 bucket starts there

---
 metrics.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index 1363b41..176b536 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1440,7 +1440,8 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 
 	low, high, sigfigures = normalize(low, high, sigfigures)
 
-	h := histogram.New(low, high, sigfigures)
+	// a histogram refuses its highest value when a bucket starts there, so ask for one more
+	h := histogram.New(low, high+1, sigfigures)
 
 	vals := make(Instances)
 	for _, s := range histogramInstances {
@@ -1461,7 +1462,7 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() - 1 }
 
 // Low returns the minimum recordable value.
 func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
-- 
2.43.0


From 0061d882f3fb92eff521aef3beeea398595e7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 16/37] fix: refuse writes at offsets outside the buffer

---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..cca00d9 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || offset > w.Len()-l {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From d67d0bc5f5049a04e51f042744418e5a796a4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/37] fix: let writes to an unmapped writer fail instead of
 crashing

---
 bytewriter/memorymappedwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..fcff955 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -65,6 +65,9 @@ func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 		return err
 	}
 
+	// the memory is gone, nothing may be written to it anymore
+	b.buffer = nil
+
 	if err := b.handle.Close(); err != nil {
 		return err
 	}
-- 
2.43.0


From 29207b54b6c2ac5f5063c84a2e957c5e73dffc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 18/37] fix: refuse to write nil instead of panicking

---
 bytewriter/bytewriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index cca00d9..3336861 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -3,6 +3,7 @@ package bytewriter
 import (
 	"bytes"
 	"encoding/binary"
+	"reflect"
 
 	"github.com/pkg/errors"
 )
@@ -60,6 +61,10 @@ func (w *ByteWriter) WriteVal(val interface{}, offset int) (int, error) {
 		return w.WriteString(s, offset)
 	}
 
+	if v := reflect.ValueOf(val); !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
+		return 0, errors.New("cannot write a nil value")
+	}
+
 	buf := bytes.NewBuffer(make([]byte, 0))
 
 	err := binary.Write(buf, byteOrder, val)
-- 
2.43.0


From 9869086006b1c8a126ba136e8902bbd4e3fcbe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 19/37] fix: close and remove the file when it cannot be
 initialized or mapped

---
 bytewriter/memorymappedwriter.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index fcff955..8b495ca 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -18,6 +18,10 @@ type MemoryMappedWriter struct {
 
 // NewMemoryMappedWriter will create and return a new instance of a MemoryMappedWriter
 func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
+	if size < 0 {
+		return nil, errors.Errorf("cannot map %d bytes", size)
+	}
+
 	if _, err := os.Stat(loc); err == nil {
 		err = os.Remove(loc)
 		if err != nil {
@@ -37,16 +41,11 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 		return nil, err
 	}
 
-	l, err := f.Write(make([]byte, size))
-	if err != nil {
-		return nil, err
-	}
-	if l < size {
-		return nil, errors.Errorf("Could not initialize %d bytes", size)
-	}
-
-	b, err := mmap.Map(f, mmap.RDWR, 0)
+	b, err := initialize(f, size)
 	if err != nil {
+		// leave neither the descriptor nor the incomplete file behind
+		_ = f.Close()
+		_ = os.Remove(loc)
 		return nil, err
 	}
 
@@ -58,6 +57,19 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 	}, nil
 }
 
+// initialize fills the file with size zero bytes and maps it
+func initialize(f *os.File, size int) (mmap.MMap, error) {
+	l, err := f.Write(make([]byte, size))
+	if err != nil {
+		return nil, err
+	}
+	if l < size {
+		return nil, errors.Errorf("Could not initialize %d bytes", size)
+	}
+
+	return mmap.Map(f, mmap.RDWR, 0)
+}
+
 // Unmap will manually delete the memory mapping of a mapped buffer
 func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 	m := mmap.MMap(b.buffer)
-- 
2.43.0


From 8f9b8a5f3cb0d39dc52c50bc06239fa16ef4a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 20/37] fix: refuse dump input with impossible counts, offsets,
 versions or table of contents

---
 mmvdump/mmvdump.go | 71 +++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..1633632 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -36,11 +36,21 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
 
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("Unsupported version: %v", header.Version)
+	}
+
 	return header, nil
 }
 
+// fits checks that length bytes starting at offset lie inside the data
+func fits(data []byte, offset, length uint64) bool {
+	l := uint64(len(data))
+	return length <= l && offset <= l-length
+}
+
 func readToc(data []byte, offset uint64) (*Toc, error) {
-	if uint64(len(data)) < offset+TocLength {
+	if !fits(data, offset, TocLength) {
 		return nil, errors.New("Incomplete/Partially Written TOC")
 	}
 
@@ -55,7 +65,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 		InstanceLength = Instance2Length
 	}
 
-	if uint64(len(data)) < offset+InstanceLength {
+	if !fits(data, offset, InstanceLength) {
 		return nil, errors.New("Incomplete/Partially Written Instance")
 	}
 
@@ -67,7 +77,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 }
 
 func readInstanceDomain(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+InstanceDomainLength {
+	if !fits(data, offset, InstanceDomainLength) {
 		return nil, errors.New("Incomplete/Partially Written InstanceDomain")
 	}
 
@@ -80,7 +90,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 		MetricLength = Metric2Length
 	}
 
-	if uint64(len(data)) < offset+MetricLength {
+	if !fits(data, offset, MetricLength) {
 		return nil, errors.New("Incomplete/Partially Written Metric")
 	}
 
@@ -92,7 +102,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+ValueLength {
+	if !fits(data, offset, ValueLength) {
 		return nil, errors.New("Incomplete/Partially Written Value")
 	}
 
@@ -100,7 +110,7 @@ func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
 }
 
 func readString(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+StringLength {
+	if !fits(data, offset, StringLength) {
 		return nil, errors.New("Incomplete/Partially Written String")
 	}
 
@@ -108,13 +118,28 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if count < 0 || !fits(data, HeaderLength, uint64(count)*TocLength) {
+		return nil, errors.New("Incomplete/Partially Written TOC")
+	}
+
 	tocs := make([]*Toc, count)
+	seen := make(map[TocType]bool)
 
 	for i := int32(0); i < count; i++ {
 		t, err := readToc(data, HeaderLength+uint64(i)*TocLength)
 		if err != nil {
 			return nil, err
 		}
+
+		if t.Type < TocIndoms || t.Type > TocStrings {
+			return nil, errors.Errorf("Unknown TOC type: %v", int32(t.Type))
+		}
+
+		if seen[t.Type] {
+			return nil, errors.Errorf("Repeated TOC type: %v", t.Type)
+		}
+		seen[t.Type] = true
+
 		tocs[i] = t
 	}
 
@@ -122,36 +147,18 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 }
 
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
-	var wg sync.WaitGroup
-	wg.Add(int(count))
+	if count < 0 {
+		return nil, errors.Errorf("Invalid number of items: %v", count)
+	}
 
 	items := make(map[uint64]interface{})
 
-	var (
-		err error
-		m   sync.Mutex
-	)
-
 	for i := int32(0); i < count; i, offset = i+1, offset+itemlength {
-		go func(offset uint64) {
-			if err == nil {
-				item, ierr := readItem(data, offset, version)
-				if ierr == nil {
-					m.Lock()
-					items[offset] = item
-					m.Unlock()
-				} else {
-					err = ierr
-				}
-			}
-			wg.Done()
-		}(offset)
-	}
-
-	wg.Wait()
-
-	if err != nil {
-		return nil, err
+		item, err := readItem(data, offset, version)
+		if err != nil {
+			return nil, err
+		}
+		items[offset] = item
 	}
 
 	return items, nil
-- 
2.43.0


From 7b3f50c0e943ea347d5948e0e6fe6d55c2972e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 21/37] fix: report dump records that refer to missing ones
 instead of crashing

---
 mmvdump/writer.go | 125 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 30 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..9e5ffae 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,22 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
-	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+func text(offset uint64, strings map[uint64]*String) (string, error) {
+	s, ok := strings[offset]
+	if !ok {
+		return "", errors.Errorf("invalid string address")
+	}
+	return string(s.Payload[:]), nil
+}
+
+func instanceName(m Instance, header *Header, strings map[uint64]*String) (string, error) {
+	switch i := m.(type) {
+	case *Instance1:
+		return string(i.External[:]), nil
+	case *Instance2:
+		return text(i.External, strings)
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return "", errors.Errorf("invalid instance address")
 }
 
 func writeInstance(
@@ -23,9 +34,17 @@ func writeInstance(
 	strings map[uint64]*String,
 ) error {
 	i := instances[offset]
-	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	Name, err := instanceName(i, header, strings)
+	if err != nil {
+		return err
+	}
+
+	indom, ok := indoms[i.Indom()]
+	if !ok {
+		return errors.Errorf("invalid instance domain address")
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -35,7 +54,11 @@ func writeInstanceDomain(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
-	indom := indoms[offset]
+	indom, ok := indoms[offset]
+	if !ok {
+		return errors.Errorf("invalid instance domain address")
+	}
+
 	_, err := fmt.Fprintf(w, "\t[%v/%v] %d instances, starting at offset %d\n", indom.Serial, offset, indom.Count, indom.Offset)
 	if err != nil {
 		return err
@@ -46,7 +69,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		t, err := text(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", t); err != nil {
 			return err
 		}
 	}
@@ -56,7 +84,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		t, err := text(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", t); err != nil {
 			return err
 		}
 	}
@@ -64,11 +97,14 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
-	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+func metricName(m Metric, header *Header, strings map[uint64]*String) (string, error) {
+	switch m := m.(type) {
+	case *Metric1:
+		return string(m.Name[:]), nil
+	case *Metric2:
+		return text(m.Name, strings)
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return "", errors.Errorf("invalid metric address")
 }
 
 func writeMetric(
@@ -79,13 +115,16 @@ func writeMetric(
 	strings map[uint64]*String,
 ) error {
 	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +148,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		t, err := text(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", t); err != nil {
 			return err
 		}
 	}
@@ -119,7 +163,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		t, err := text(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", t); err != nil {
 			return err
 		}
 	}
@@ -136,17 +185,22 @@ func writeValue(
 	instances map[uint64]Instance,
 	strings map[uint64]*String,
 ) error {
-	v := values[offset]
+	v, ok := values[offset]
+	if !ok {
+		return errors.Errorf("invalid value address")
+	}
+
 	m := metrics[v.Metric]
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -154,16 +208,20 @@ func writeValue(
 			return err
 		}
 	} else {
-		v, ok := strings[uint64(v.Extra)]
-		if !ok {
-			return errors.Errorf("invalid string address")
+		a, err = text(uint64(v.Extra), strings)
+		if err != nil {
+			return err
 		}
-		a = string(v.Payload[:])
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
 		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		Instance, err := instanceName(i, header, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), Instance); err != nil {
 			return err
 		}
 	}
@@ -173,7 +231,12 @@ func writeValue(
 }
 
 func writeString(w io.Writer, offset uint64, strings map[uint64]*String) error {
-	_, err := fmt.Fprintf(w, "\t[%v] %v\n", offset, string(strings[offset].Payload[:]))
+	t, err := text(offset, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v] %v\n", offset, t)
 	return err
 }
 
@@ -225,6 +288,8 @@ func writeComponents(
 			itemtype = "strings"
 			itemsize = StringLength
 			writeItem = func(off uint64) error { return writeString(w, off, strings) }
+		default:
+			return errors.Errorf("unknown TOC type: %v", int32(toc.Type))
 		}
 
 		if _, err := fmt.Fprintf(w, "TOC[%v], offset: %v, %v offset: %v (%v entries)\n", ti, toff, itemtype, toc.Offset, toc.Count); err != nil {
-- 
2.43.0


From c92c92d62e29961a468c252b3b85f3031bd85600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 22/37] fix: read the value under the lock in
 PCPSingletonMetric.String

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 176b536..e2dbc32 100644
--- a/metrics.go
+++ b/metrics.go
@@ -651,7 +651,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4e562e75673e1e1702c436575c943c55a1b811e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 23/37] fix: read the histogram under the lock in Percentile
 and Buckets

---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index e2dbc32..36c699d 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1580,7 +1580,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1589,7 +1593,10 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
 	b := h.h.Distribution()
+	h.mutex.RUnlock()
+
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
 		buckets[i] = &HistogramBucket{b[i].From, b[i].To, b[i].Count}
-- 
2.43.0


From 5b255f7794e701ddea05f552d7071485c3adf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 24/37] fix: write a value with a single copy

---
 bytewriter/bytewriter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index 3336861..1661bc0 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -39,9 +39,8 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-	for i := 0; i < l; i++ {
-		w.buffer[offset+i] = data[i]
-	}
+	// a single copy, so that a reader of mapped memory does not see half of a number
+	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
 }
-- 
2.43.0


From f2274b7a8c6045192f5247c58f5f1e78b5fc2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 25/37] fix: write the files of clients sharing instance
 domains one at a time

---
 client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client.go b/client.go
index 25dd1e0..a020da1 100644
--- a/client.go
+++ b/client.go
@@ -212,10 +212,19 @@ func (c *PCPClient) Start() error {
 	}
 
 	c.writer = writer
+
+	// instance offsets are kept in the instance domains while writing,
+	// and those can be shared with other clients
+	startMutex.Lock()
+	defer startMutex.Unlock()
+
 	c.start()
 	return nil
 }
 
+// startMutex makes clients write their files one at a time
+var startMutex sync.Mutex
+
 func (c *PCPClient) start() {
 	var (
 		InstanceLength = Instance1Length
-- 
2.43.0


From f0e195ddf3939f97d80a19ed35ec192da9b69359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 26/37] fix: refuse client names that are not file names

---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index a020da1..205403e 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,11 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	// these name directories, never a file in the mmv directory
+	if name == "" || name == "." || name == ".." {
+		return "", errors.Errorf("%q is not a file name", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From 6ee662e6f0c603f4c6987d91a5d30bfba71df003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 27/37] fix: do not take commented out lines of pcp.conf as
 settings

---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 041b157..f027f8d 100644
--- a/config.go
+++ b/config.go
@@ -16,8 +16,8 @@ var confPath string
 // config stores the configuration as defined in current PCP environment
 var config map[string]string
 
-// pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+// pat stores a valid key-value pattern line, nothing but space may precede the key
+var pat = `^\s*([A-Z0-9_]+)=(.*)`
 
 // initConfig initializes the config constants
 func initConfig() error {
-- 
2.43.0


From 2d061000d86b2170f8a2ec74d966dc1149692a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 28/37] fix: read pcp.conf past lines over 64 KiB, and close it

---
 config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index f027f8d..8fb04e8 100644
--- a/config.go
+++ b/config.go
@@ -2,6 +2,7 @@ package speed
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -39,11 +40,13 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer func() { _ = f.Close() }()
 
 	// if we reach at this point, it means we have a valid config
 	// that can be read, so we can make the map non-nil
 	config = make(map[string]string)
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		t := scanner.Text()
 		if re.MatchString(t) {
@@ -52,5 +55,5 @@ func initConfig() error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 069a3d4863d222e6b0bc1f5aebd5c30131929ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:21 +0000
Subject: [PATCH 29/37] fix: release the previous mapping when an active client
 is started again

---
 client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client.go b/client.go
index 205403e..b2c8833 100644
--- a/client.go
+++ b/client.go
@@ -216,6 +216,7 @@ func (c *PCPClient) Start() error {
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
+	old := c.writer
 	c.writer = writer
 
 	// instance offsets are kept in the instance domains while writing,
@@ -224,6 +225,14 @@ func (c *PCPClient) Start() error {
 	defer startMutex.Unlock()
 
 	c.start()
+
+	// an active client starting over, every metric writes to the new mapping by now
+	if m, ok := old.(*bytewriter.MemoryMappedWriter); ok {
+		if err := m.Unmap(false); err != nil {
+			return errors.Wrap(err, "client: error unmapping the previous MemoryMappedBuffer")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From ee69638d5309d1e6a9ee9f4f8545d883fdcd7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:28 +0000
Subject: [PATCH 30/37] fix: report the count scale of a composed unit

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 36c699d..bebbc7c 100644
--- a/metrics.go
+++ b/metrics.go
@@ -242,7 +242,7 @@ func (m *metricUnit) CountScale() CountUnit {
 		panic("no count scale on unit")
 	}
 
-	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))>>8)
+	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))<<8)
 }
 
 func (m *metricUnit) String() string {
-- 
2.43.0


From 860356f95a8f572a83664bf0dbbec7c9c0392a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:48 +0000
Subject: [PATCH 31/37] fix: refuse metrics and instance domains of foreign
 types instead of panicking, or hanging in Start

---
 registry.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/registry.go b/registry.go
index 7ad513b..ce26d11 100644
--- a/registry.go
+++ b/registry.go
@@ -174,6 +174,10 @@ func (r *PCPRegistry) instanceDomain(name string) *PCPInstanceDomain {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
+	if _, ok := indom.(*PCPInstanceDomain); !ok {
+		return errors.Errorf("cannot add an instance domain of type %T", indom)
+	}
+
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
@@ -236,8 +240,23 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 	}
 }
 
+// writable returns true for the metrics that a client knows how to write
+func writable(m Metric) bool {
+	switch m.(type) {
+	case *PCPSingletonMetric, *PCPCounter, *PCPGauge, *PCPTimer,
+		*PCPInstanceMetric, *PCPCounterVector, *PCPGaugeVector, *PCPHistogram:
+		return true
+	}
+
+	return false
+}
+
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	if !writable(m) {
+		return errors.Errorf("cannot add a metric of type %T", m)
+	}
+
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
-- 
2.43.0


From 2ca658e7ad07629b8f5032f1bf3457cb46cd56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:54 +0000
Subject: [PATCH 32/37] fix: refuse a metric without a unit instead of crashing
 the process in Start

---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index bebbc7c..0bdfd1a 100644
--- a/metrics.go
+++ b/metrics.go
@@ -507,6 +507,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("metric description is too long")
 	}
 
+	if u == nil {
+		return nil, errors.New("metric unit cannot be nil")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From 49a8eb1f246de3c043f9ceeb0632b773d273e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:04 +0000
Subject: [PATCH 33/37] fix: report the mean and percentiles of histograms
 whose sums or counts overflow

---
 metrics.go | 60 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/metrics.go b/metrics.go
index 0bdfd1a..8c66f21 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1401,6 +1401,9 @@ const (
 	HistogramMax = 3600000000
 )
 
+// the maximum number of recordings in a histogram, percentiles of more cannot be told apart
+const histogramMaxCount = 1 << 52
+
 func normalize(low, high int64, sigfigures int) (int64, int64, int) {
 	if low < HistogramMin {
 		low = HistogramMin
@@ -1501,12 +1504,12 @@ func (h *PCPHistogram) update() error {
 		return err
 	}
 
-	if err := updateinstance("mean", h.h.Mean()); err != nil {
+	mean, stddev := h.moments()
+
+	if err := updateinstance("mean", mean); err != nil {
 		return err
 	}
 
-	stddev := h.h.StdDev()
-
 	if err := updateinstance("standard_deviation", stddev); err != nil {
 		return err
 	}
@@ -1518,19 +1521,51 @@ func (h *PCPHistogram) update() error {
 	return nil
 }
 
-// Record records a new value.
-func (h *PCPHistogram) Record(val int64) error {
-	h.mutex.Lock()
-	defer h.mutex.Unlock()
+// moments returns the mean and the standard deviation of all recorded values.
+func (h *PCPHistogram) moments() (mean, stddev float64) {
+	count := float64(h.h.TotalCount())
 
-	err := h.h.RecordValue(val)
-	if err != nil {
+	// the histogram library adds up the values in an int64
+	if count*float64(h.h.Max()) < math.MaxInt64/2 {
+		return h.h.Mean(), h.h.StdDev()
+	}
+
+	bars := h.h.Distribution()
+	median := func(b histogram.Bar) float64 { return float64(b.From + (b.To-b.From+1)/2) }
+
+	for _, b := range bars {
+		mean += float64(b.Count) / count * median(b)
+	}
+
+	for _, b := range bars {
+		dev := median(b) - mean
+		stddev += float64(b.Count) / count * dev * dev
+	}
+
+	return mean, math.Sqrt(stddev)
+}
+
+// record adds n recordings of a value.
+func (h *PCPHistogram) record(val, n int64) error {
+	if n > histogramMaxCount-h.h.TotalCount() {
+		return errors.Errorf("cannot record a value %v times after %v other recordings", n, h.h.TotalCount())
+	}
+
+	if err := h.h.RecordValues(val, n); err != nil {
 		return err
 	}
 
 	return h.update()
 }
 
+// Record records a new value.
+func (h *PCPHistogram) Record(val int64) error {
+	h.mutex.Lock()
+	defer h.mutex.Unlock()
+
+	return h.record(val, 1)
+}
+
 // MustRecord panics if Record fails.
 func (h *PCPHistogram) MustRecord(val int64) {
 	if err := h.Record(val); err != nil {
@@ -1547,12 +1582,7 @@ func (h *PCPHistogram) RecordN(val, n int64) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	err := h.h.RecordValues(val, n)
-	if err != nil {
-		return err
-	}
-
-	return h.update()
+	return h.record(val, n)
 }
 
 // MustRecordN panics if RecordN fails.
-- 
2.43.0


From 8cfc5c0ea5aa19a9b23a387bd9d7e39f8a06ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 34/37] fix: a registry serves one active client at a time

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index b2c8833..6c0085b 100644
--- a/client.go
+++ b/client.go
@@ -207,6 +207,9 @@ func (c *PCPClient) Start() error {
 
 	// nothing can be registered from here on, so that what is written matches the length
 	wasMapped := c.r.setMapped(true)
+	if wasMapped && c.writer == nil {
+		return errors.New("the registry is in use by another active client")
+	}
 
 	l := c.Length()
 
@@ -666,7 +669,7 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.isMapped() {
+	if c.writer == nil || !c.r.isMapped() {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
-- 
2.43.0


From cf13ea08ddaf1373e1d119660284fe17cb7466e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 35/37] fix: number the semantics constants of mmvdump

---
 mmvdump/pcp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmvdump/pcp.go b/mmvdump/pcp.go
index 2bf27a0..69840d3 100644
--- a/mmvdump/pcp.go
+++ b/mmvdump/pcp.go
@@ -372,7 +372,7 @@ type Semantics int32
 
 // Values for Semantics
 const (
-	NoSemantics Semantics = 0
+	NoSemantics Semantics = iota
 	CounterSemantics
 	_
 	InstantSemantics
-- 
2.43.0


From cf1932086c75d0622832c24322c80a8df00e4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:49 +0000
Subject: [PATCH 36/37] fix: composing onto a unit leaves that unit as it was

---
 metrics.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/metrics.go b/metrics.go
index 8c66f21..5c367ab 100644
--- a/metrics.go
+++ b/metrics.go
@@ -170,10 +170,11 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr &^= 0xF<<28 | 0xF<<16
-	m.repr |= uint32(s) & (0xF << 16)
-	m.repr |= (uint32(dimension) & 0xF) << 28
-	return m
+	// the current unit can be in use by metrics, and a base for other units
+	repr := m.repr &^ (0xF<<28 | 0xF<<16)
+	repr |= uint32(s) & (0xF << 16)
+	repr |= (uint32(dimension) & 0xF) << 28
+	return &metricUnit{repr}
 }
 
 // https://docs.rs/hornet/0.1.0/src/hornet/client/metric/mod.rs.html#383
@@ -182,10 +183,11 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr &^= 0xF<<24 | 0xF<<12
-	m.repr |= uint32(t) & (0xF << 12)
-	m.repr |= (uint32(dimension) & 0xF) << 24
-	return m
+	// the current unit can be in use by metrics, and a base for other units
+	repr := m.repr &^ (0xF<<24 | 0xF<<12)
+	repr |= uint32(t) & (0xF << 12)
+	repr |= (uint32(dimension) & 0xF) << 24
+	return &metricUnit{repr}
 }
 
 // https://docs.rs/hornet/0.1.0/src/hornet/client/metric/mod.rs.html#391
@@ -194,10 +196,11 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr &^= 0xF<<20 | 0xF<<8
-	m.repr |= uint32(c) & (0xF << 8)
-	m.repr |= (uint32(dimension) & 0xF) << 20
-	return m
+	// the current unit can be in use by metrics, and a base for other units
+	repr := m.repr &^ (0xF<<20 | 0xF<<8)
+	repr |= uint32(c) & (0xF << 8)
+	repr |= (uint32(dimension) & 0xF) << 20
+	return &metricUnit{repr}
 }
 
 // https://docs.rs/hornet/0.1.0/src/hornet/client/metric/mod.rs.html#410
-- 
2.43.0


From a99219c57e58e42678ef25def446b91ffeeab378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:02 +0000
Subject: [PATCH 37/37] fix: a registry is free for another client only once
 Stop is done with the file

---
 client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 6c0085b..f120bc2 100644
--- a/client.go
+++ b/client.go
@@ -675,10 +675,12 @@ func (c *PCPClient) Stop() error {
 
 	c.stop()
 
-	c.r.setMapped(false)
-
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
+
+	// only now, another client of the registry can be writing to the same file
+	c.r.setMapped(false)
+
 	if err != nil {
 		return errors.Wrap(err, "client: error unmapping MemoryMappedBuffer")
 	}
-- 
2.43.0

