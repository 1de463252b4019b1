From ac4c0109b3b6b2fd1894e6c25507461288af8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 01/81] fix: write chart parts readers accept, with correct
 point indices, series names, categories and directions

Charts nested axes and category references where the schema has no place
for them, numbered every cached point 0, ignored the requested bar
direction and stacking, and used a line grouping that does not exist.
---
 src/generator/charts/xml.rs | 527 +++++++++++++-----------------------
 1 file changed, 185 insertions(+), 342 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..74368b0 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,80 +109,81 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
-/// Generate series data XML
-fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
-    let mut xml = format!(
+/// Spreadsheet column letters for a 0-based column index (0 = A)
+fn column_name(index: usize) -> String {
+    let mut name = String::new();
+    let mut n = index + 1;
+    while n > 0 {
+        name.insert(0, (b'A' + ((n - 1) % 26) as u8) as char);
+        n = (n - 1) / 26;
+    }
+    name
+}
+
+/// Generate the series name (`c:tx`)
+fn generate_series_name(idx: usize, series_name: &str) -> String {
+    format!(
         r#"
-<c:ser>
-<c:idx val="{}"/>
-<c:order val="{}"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
-</c:tx>
-</c:title>
-<c:dLbls>
-<c:showVal val="0"/>
-</c:dLbls>
-<c:val>
+<c:strRef>
+<c:f>Sheet1!${}$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
+</c:tx>"#,
+        column_name(1 + idx), escape_xml(series_name)
+    )
+}
+
+/// Generate a cached number reference (`c:numRef`) into one worksheet column
+fn generate_num_ref(column: usize, values: impl ExactSizeIterator<Item = f64>) -> String {
+    let column = column_name(column);
+    let count = values.len();
+    let mut xml = format!(
+        r#"
 <c:numRef>
-<c:f>Sheet1!$B${}:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+        column, column, 1 + count, count
     );
 
-    for value in values {
-        xml.push_str(&format!(
-            r#"
-<c:pt idx="0">
+    for (idx, value) in values.enumerate() {
+        // A value that is not a number has no spreadsheet notation: leave a gap
+        if value.is_finite() {
+            xml.push_str(&format!(
+                r#"
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
-        ));
+                idx, value
+            ));
+        }
     }
 
     xml.push_str(
         r#"
 </c:numCache>
-</c:numRef>
-</c:val>
-</c:ser>"#
+</c:numRef>"#
     );
 
     xml
 }
 
-/// Generate category axis XML
-fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
+/// Generate the category labels of a series (`c:cat`)
+fn generate_categories(chart: &Chart) -> String {
     let mut xml = format!(
         r#"
-<c:catAx>
-<c:axId val="1"/>
-<c:scaling>
-<c:orientation val="minMax"/>
-</c:scaling>
-<c:delete val="0"/>
-<c:axPos val="{}"/>
-<c:majorGridlines/>
-<c:numFmt formatCode="General" sourceLinked="1"/>
-<c:tickLblPos val="low"/>
-<c:crossAx val="2"/>
-<c:crosses val="autoZero"/>
+<c:cat>
 <c:strRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:strCache>
 <c:ptCount val="{}"/>"#,
-        ax_pos, 1 + chart.category_count(), chart.category_count()
+        1 + chart.category_count(),
+        chart.category_count()
     );
 
     for (idx, cat) in chart.categories.iter().enumerate() {
@@ -199,18 +200,65 @@ fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
         r#"
 </c:strCache>
 </c:strRef>
-</c:catAx>"#
+</c:cat>"#
     );
 
     xml
 }
 
+/// Generate series data XML
+fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+    format!(
+        r#"
+<c:ser>
+<c:idx val="{}"/>
+<c:order val="{}"/>{}
+<c:dLbls>
+<c:showVal val="0"/>
+</c:dLbls>{}
+<c:val>{}
+</c:val>
+</c:ser>"#,
+        idx,
+        idx,
+        generate_series_name(idx, series_name),
+        generate_categories(chart),
+        generate_num_ref(1 + idx, values.iter().copied())
+    )
+}
+
+/// Axis references closing a plot group
+const AXIS_IDS: &str = r#"
+<c:axId val="1"/>
+<c:axId val="2"/>"#;
+
+/// Generate category axis XML
+fn generate_category_axis(ax_pos: &str) -> String {
+    format!(
+        r#"
+<c:catAx>
+<c:axId val="1"/>
+<c:scaling>
+<c:orientation val="minMax"/>
+</c:scaling>
+<c:delete val="0"/>
+<c:axPos val="{}"/>
+<c:majorGridlines/>
+<c:numFmt formatCode="General" sourceLinked="1"/>
+<c:tickLblPos val="low"/>
+<c:crossAx val="2"/>
+<c:crosses val="autoZero"/>
+</c:catAx>"#,
+        ax_pos
+    )
+}
+
 /// Generate value axis XML
-fn generate_value_axis(ax_pos: &str) -> String {
+fn generate_value_axis(ax_pos: &str, id: u32, crosses: u32) -> String {
     format!(
         r#"
 <c:valAx>
-<c:axId val="2"/>
+<c:axId val="{}"/>
 <c:scaling>
 <c:orientation val="minMax"/>
 </c:scaling>
@@ -219,10 +267,10 @@ fn generate_value_axis(ax_pos: &str) -> String {
 <c:majorGridlines/>
 <c:numFmt formatCode="General" sourceLinked="1"/>
 <c:tickLblPos val="low"/>
-<c:crossAx val="1"/>
+<c:crossAx val="{}"/>
 <c:crosses val="autoZero"/>
 </c:valAx>"#,
-        ax_pos
+        id, ax_pos, crosses
     )
 }
 
@@ -230,17 +278,24 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    let direction = chart.chart_type.bar_direction().unwrap_or("col");
+    let grouping = chart.chart_type.grouping().unwrap_or("clustered");
+    xml.push_str(&format!(r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#, direction, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "l"));
-    xml.push_str(&generate_value_axis("b"));
+    if grouping != "clustered" {
+        xml.push_str("\n<c:overlap val=\"100\"/>");
+    }
+    let (cat_pos, val_pos) = if direction == "bar" { ("l", "b") } else { ("b", "l") };
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
+    xml.push_str(&generate_category_axis(cat_pos));
+    xml.push_str(&generate_value_axis(val_pos, 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -250,16 +305,18 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    let grouping = chart.chart_type.grouping().unwrap_or("standard");
+    xml.push_str(&format!(r#"<c:lineChart>
+<c:grouping val="{}"/>"#, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:lineChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -278,75 +335,18 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="0"/>
-<c:order val="0"/>
-<c:title>
-<c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
-</c:tx>
-</c:title>
+<c:order val="0"/>{}
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
-<c:val>
-<c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
-        ));
-
-        for (idx, value) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, value
-            ));
-        }
-
-        xml.push_str(&format!(
-            r#"
-</c:numCache>
-</c:numRef>
+</c:dLbls>{}
+<c:val>{}
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
+</c:ser>"#,
+            generate_series_name(0, &series.name),
+            generate_categories(chart),
+            generate_num_ref(1, series.values.iter().copied())
         ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
-</c:ser>"#
-        );
     }
 
     xml.push_str("</c:pieChart>");
@@ -360,8 +360,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:doughnutChart>
-<c:varyColors val="1"/>
-<c:holeSize val="50"/>"#);
+<c:varyColors val="1"/>"#);
 
     // Doughnut chart uses first series only (like pie)
     if let Some(series) = chart.series.first() {
@@ -369,72 +368,21 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="0"/>
-<c:order val="0"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
+<c:order val="0"/>{}
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
-<c:val>
-<c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
-        ));
-
-        for (idx, value) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, value
-            ));
-        }
-
-        xml.push_str(&format!(
-            r#"
-</c:numCache>
-</c:numRef>
+</c:dLbls>{}
+<c:val>{}
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
+</c:ser>"#,
+            generate_series_name(0, &series.name),
+            generate_categories(chart),
+            generate_num_ref(1, series.values.iter().copied())
         ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
-</c:ser>"#
-        );
     }
 
+    xml.push_str("\n<c:holeSize val=\"50\"/>");
     xml.push_str("</c:doughnutChart>");
     xml.push_str(chart_part_footer());
 
@@ -453,9 +401,10 @@ fn generate_area_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:areaChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -474,70 +423,25 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
-<c:xVal>
-<c:numRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
-        ));
-
-        // X values (use index as X)
-        for (i, _) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                i, i + 1
-            ));
-        }
-
-        xml.push_str(&format!(
-            r#"
-</c:numCache>
-</c:numRef>
+<c:order val="{}"/>{}
+<c:xVal>{}
 </c:xVal>
-<c:yVal>
-<c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
-        ));
-
-        for (i, value) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                i, value
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:numCache>
-</c:numRef>
+<c:yVal>{}
 </c:yVal>
-</c:ser>"#
-        );
+</c:ser>"#,
+            idx,
+            idx,
+            generate_series_name(idx, &series.name),
+            // X values (use index as X)
+            generate_num_ref(0, (0..series.values.len()).map(|i| (i + 1) as f64)),
+            generate_num_ref(1 + idx, series.values.iter().copied())
+        ));
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:scatterChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -548,101 +452,36 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:bubbleChart>
-<c:varyColors val="0"/>
-<c:bubbleScale val="100"/>"#);
+<c:varyColors val="0"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&format!(
             r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
-<c:xVal>
-<c:numRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
-        ));
-
-        for (i, _) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                i, i + 1
-            ));
-        }
-
-        xml.push_str(&format!(
-            r#"
-</c:numCache>
-</c:numRef>
+<c:order val="{}"/>{}
+<c:xVal>{}
 </c:xVal>
-<c:yVal>
-<c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
-        ));
-
-        for (i, value) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                i, value
-            ));
-        }
-
-        xml.push_str(&format!(
-            r#"
-</c:numCache>
-</c:numRef>
+<c:yVal>{}
 </c:yVal>
-<c:bubbleSize>
-<c:numRef>
-<c:f>Sheet1!$C$2:$C${}</c:f>
-<c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
-        ));
-
-        // Bubble sizes (use values as sizes)
-        for (i, value) in series.values.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                i, value.abs()
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:numCache>
-</c:numRef>
+<c:bubbleSize>{}
 </c:bubbleSize>
-</c:ser>"#
-        );
+</c:ser>"#,
+            idx,
+            idx,
+            generate_series_name(idx, &series.name),
+            generate_num_ref(0, (0..series.values.len()).map(|i| (i + 1) as f64)),
+            generate_num_ref(1 + idx, series.values.iter().copied()),
+            // Bubble sizes (use values as sizes)
+            generate_num_ref(1 + chart.series.len() + idx, series.values.iter().map(|v| v.abs()))
+        ));
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str("\n<c:bubbleScale val=\"100\"/>");
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:bubbleChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -660,9 +499,10 @@ fn generate_radar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:radarChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -679,9 +519,10 @@ fn generate_stock_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:stockChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -696,13 +537,12 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
 <c:barDir val="col"/>
 <c:grouping val="clustered"/>"#);
 
-    let mid = chart.series.len() / 2;
-    for (idx, series) in chart.series.iter().take(mid.max(1)).enumerate() {
+    let mid = (chart.series.len() / 2).max(1);
+    for (idx, series) in chart.series.iter().take(mid).enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
 
     // Second half as lines
@@ -710,13 +550,16 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
         xml.push_str(r#"<c:lineChart>
 <c:grouping val="standard"/>"#);
 
-        for (idx, series) in chart.series.iter().skip(mid.max(1)).enumerate() {
+        for (idx, series) in chart.series.iter().skip(mid).enumerate() {
             xml.push_str(&generate_series_data(chart, mid + idx, &series.name, &series.values));
         }
 
+        xml.push_str(AXIS_IDS);
         xml.push_str("</c:lineChart>");
     }
 
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
-- 
2.43.0


From 38491aee3ce53b27f430c89dc8380e43b475242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/81] fix: leave out characters XML 1.0 forbids when escaping
 text

A control character in any text made the part it went into malformed.
---
 src/core/xml_utils.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index f567516..752c923 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -4,13 +4,26 @@
 
 use std::fmt::Write;
 
+/// Characters XML 1.0 cannot carry, not even as a character reference.
+fn is_forbidden_in_xml(c: char) -> bool {
+    matches!(
+        c,
+        '\u{0}'..='\u{8}' | '\u{b}' | '\u{c}' | '\u{e}'..='\u{1f}' | '\u{fffe}' | '\u{ffff}'
+    )
+}
+
+/// Whether a string can be written to XML as it is.
+fn is_plain_xml_text(s: &str) -> bool {
+    !s.chars()
+        .any(|c| matches!(c, '&' | '<' | '>' | '"' | '\'') || is_forbidden_in_xml(c))
+}
+
 /// Escape special XML characters in a single pass.
+///
+/// Characters that XML 1.0 does not allow (most control characters) are dropped.
 pub fn escape_xml(s: &str) -> String {
     // Fast path: most strings need no escaping.
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if is_plain_xml_text(s) {
         return s.to_string();
     }
 
@@ -22,6 +35,7 @@ pub fn escape_xml(s: &str) -> String {
             '>' => out.push_str("&gt;"),
             '"' => out.push_str("&quot;"),
             '\'' => out.push_str("&apos;"),
+            c if is_forbidden_in_xml(c) => {}
             _ => out.push(c),
         }
     }
@@ -30,10 +44,7 @@ pub fn escape_xml(s: &str) -> String {
 
 /// Append escaped XML text into an existing buffer (avoids intermediate String).
 pub fn append_escape_xml(buf: &mut String, s: &str) {
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if is_plain_xml_text(s) {
         buf.push_str(s);
         return;
     }
@@ -44,6 +55,7 @@ pub fn append_escape_xml(buf: &mut String, s: &str) {
             '>' => buf.push_str("&gt;"),
             '"' => buf.push_str("&quot;"),
             '\'' => buf.push_str("&apos;"),
+            c if is_forbidden_in_xml(c) => {}
             _ => buf.push(c),
         }
     }
-- 
2.43.0


From 7d292d7384fddb2a3a2c6a0228cc75d721c30e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/81] fix: escape the presentation title in the core
 properties and the first slide

---
 src/generator/props_xml.rs     | 14 ++------------
 src/generator/slide_xml/mod.rs |  2 +-
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..f698ef7 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -27,6 +27,7 @@ fn current_timestamp() -> String {
 
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
+    let title = xml_escape(title);
     let now = current_timestamp();
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
@@ -43,18 +44,7 @@ pub fn create_core_props_xml(title: &str) -> String {
 
 /// Escape a string for use in XML text content / attribute values.
 fn xml_escape(s: &str) -> String {
-    let mut out = String::with_capacity(s.len());
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
-    out
+    crate::core::escape_xml(s)
 }
 
 /// Build the `<HeadingPairs>` and `<TitlesOfParts>` elements.
diff --git a/src/generator/slide_xml/mod.rs b/src/generator/slide_xml/mod.rs
index d3afdb2..3b6f601 100644
--- a/src/generator/slide_xml/mod.rs
+++ b/src/generator/slide_xml/mod.rs
@@ -19,7 +19,7 @@ pub use common::create_slide_rels_xml;
 /// Create simple slide XML
 pub fn create_slide_xml(slide_num: usize, title: &str) -> String {
     let slide_title = if slide_num == 1 {
-        title.to_string()
+        crate::core::escape_xml(title)
     } else {
         format!("Slide {slide_num}")
     };
-- 
2.43.0


From 5c12e011405f4378817ac8220f6c1bd1c3af62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/81] fix: escape custom bullet characters and bullet font
 names

---
 src/generator/layouts/common.rs       | 1 +
 src/generator/slide_content/bullet.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..5409cb8 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -83,6 +83,7 @@ impl ExtendedTextProps {
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..043ec31 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -1,6 +1,6 @@
 //! Bullet point types and formatting
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 
 /// Bullet style for lists
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
@@ -34,7 +34,7 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, escape_xml(&ch.to_string())),
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
-- 
2.43.0


From b498766b2041e13b63983ba87b172138492a4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 05/81] fix: drop forbidden XML characters from comments,
 sections, fonts, signatures, themes and properties too

---
 src/generator/presentation_theme.rs              | 4 +---
 src/generator/slide_content/comments.rs          | 6 +-----
 src/generator/slide_content/digital_signature.rs | 6 +-----
 src/generator/slide_content/embedded_fonts.rs    | 6 +-----
 src/generator/slide_content/print_settings.rs    | 6 +-----
 src/generator/slide_content/sections.rs          | 6 +-----
 src/parts/coreprops.rs                           | 6 +-----
 7 files changed, 7 insertions(+), 33 deletions(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..8176115 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -309,9 +309,7 @@ fn normalize_hex(hex: &str) -> String {
 }
 
 fn escape_xml_attr(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('"', "&quot;")
-        .replace('<', "&lt;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..1b47c36 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -218,11 +218,7 @@ impl SlideComments {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..bedf476 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -184,11 +184,7 @@ impl DigitalSignature {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..0695079 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -249,11 +249,7 @@ impl EmbeddedFontList {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/print_settings.rs b/src/generator/slide_content/print_settings.rs
index c19576d..081121a 100644
--- a/src/generator/slide_content/print_settings.rs
+++ b/src/generator/slide_content/print_settings.rs
@@ -232,11 +232,7 @@ impl PrintSettings {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..cc34795 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -177,11 +177,7 @@ fn generate_section_id(name: &str) -> String {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..c2e8c6f 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -110,11 +110,7 @@ impl CorePropertiesPart {
     }
 
     fn escape_xml(s: &str) -> String {
-        s.replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;")
-            .replace('"', "&quot;")
-            .replace('\'', "&apos;")
+        crate::core::escape_xml(s)
     }
 }
 
-- 
2.43.0


From e4973a08281c82e26a68a0c8e1fb4979fb7f4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 06/81] fix: declare a content type for every image format a
 deck can embed

---
 src/generator/package_xml.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..9b84f95 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -26,26 +26,24 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
-    for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+    const IMAGE_TYPES: [(&str, &str); 9] = [
+        ("jpg", "image/jpeg"),
+        ("jpeg", "image/jpeg"),
+        ("png", "image/png"),
+        ("gif", "image/gif"),
+        ("bmp", "image/bmp"),
+        ("tif", "image/tiff"),
+        ("tiff", "image/tiff"),
+        ("svg", "image/svg+xml"),
+        ("webp", "image/webp"),
+    ];
+    for (ext, content_type) in IMAGE_TYPES {
+        if media_exts.iter().any(|e| e == ext) {
+            xml.push_str(&format!(
+                r#"<Default Extension="{ext}" ContentType="{content_type}"/>"#
+            ));
         }
     }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
-    }
 }
 
 pub fn content_types_opening(media_exts: &[String], chart_count: usize) -> String {
-- 
2.43.0


From 1b7ab5c21c8752e259e56269b0b312b3f4aae6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 07/81] fix: compute document timestamps with the real calendar

The year/month arithmetic ignored leap days and month lengths, so created
and modified dates were weeks off and could name days that do not exist.
---
 src/core/mod.rs            |  1 +
 src/core/xml_utils.rs      | 26 ++++++++++++++++++++++++++
 src/generator/props_xml.rs | 18 +-----------------
 src/parts/coreprops.rs     | 22 +---------------------
 4 files changed, 29 insertions(+), 38 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..3cf4059 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -26,3 +26,4 @@ pub use validation::{
     REQUIRED_PARTS_MINIMAL, REQUIRED_PARTS_REPAIR,
 };
 pub use xml_utils::{append_escape_xml, append_i32, append_usize, escape_xml, XmlWriter};
+pub(crate) use xml_utils::format_timestamp;
diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index 752c923..be4db5a 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -61,6 +61,32 @@ pub fn append_escape_xml(buf: &mut String, s: &str) {
     }
 }
 
+/// Format seconds since the Unix epoch as an ISO 8601 / W3CDTF timestamp (UTC).
+pub(crate) fn format_timestamp(unix_secs: u64) -> String {
+    let seconds = unix_secs % 86400;
+    // Civil date from a day count (proleptic Gregorian calendar, eras of 400 years)
+    let shifted = unix_secs / 86400 + 719_468;
+    let era = shifted / 146_097;
+    let day_of_era = shifted % 146_097;
+    let year_of_era =
+        (day_of_era - day_of_era / 1460 + day_of_era / 36_524 - day_of_era / 146_096) / 365;
+    let day_of_year = day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+    let shifted_month = (5 * day_of_year + 2) / 153;
+    let day = day_of_year - (153 * shifted_month + 2) / 5 + 1;
+    let month = if shifted_month < 10 { shifted_month + 3 } else { shifted_month - 9 };
+    let year = year_of_era + era * 400 + u64::from(month <= 2);
+
+    format!(
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
+        year,
+        month,
+        day,
+        seconds / 3600,
+        (seconds % 3600) / 60,
+        seconds % 60
+    )
+}
+
 /// Append a decimal integer without allocating a temporary `format!` string.
 pub fn append_usize(buf: &mut String, value: usize) {
     let _ = write!(buf, "{value}");
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index f698ef7..85ec88f 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -6,23 +6,7 @@ fn current_timestamp() -> String {
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap_or_else(|_| std::time::Duration::from_secs(0));
 
-    let secs = duration.as_secs();
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
+    crate::core::format_timestamp(duration.as_secs())
 }
 
 /// Create core properties XML (docProps/core.xml)
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index c2e8c6f..dd459a1 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -14,27 +14,7 @@ fn current_timestamp() -> String {
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap_or_else(|_| std::time::Duration::from_secs(0));
 
-    let secs = duration.as_secs();
-
-    // Convert to UTC datetime (simplified calculation)
-    // Days since Unix epoch
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    // Approximate date from Unix epoch (1970-01-01)
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30; // Approximate
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
+    crate::core::format_timestamp(duration.as_secs())
 }
 
 /// Core properties part (docProps/core.xml)
-- 
2.43.0


From bb2448b541bc4b3acce776738d50aea26bb08b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 08/81] fix: name only preset geometries DrawingML defines

Fourteen shape types named presets that do not exist, which makes readers
report the file as corrupt; use the preset each one stands for, or the
nearest one.
---
 src/generator/shapes.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..f7eb01d 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -189,12 +189,12 @@ impl ShapeType {
             ShapeType::FlowChartDocument => "flowChartDocument",
             ShapeType::FlowChartPredefinedProcess => "flowChartPredefinedProcess",
             ShapeType::FlowChartInternalStorage => "flowChartInternalStorage",
-            ShapeType::FlowChartData => "flowChartData",
+            ShapeType::FlowChartData => "flowChartInputOutput",
             ShapeType::FlowChartInputOutput => "flowChartInputOutput",
             ShapeType::FlowChartManualInput => "flowChartManualInput",
             ShapeType::FlowChartManualOperation => "flowChartManualOperation",
             ShapeType::FlowChartConnector => "flowChartConnector",
-            ShapeType::FlowChartOffPageConnector => "flowChartOffPageConnector",
+            ShapeType::FlowChartOffPageConnector => "flowChartOffpageConnector",
             ShapeType::FlowChartPunchedCard => "flowChartPunchedCard",
             ShapeType::FlowChartPunchedTape => "flowChartPunchedTape",
             ShapeType::FlowChartSummingJunction => "flowChartSummingJunction",
@@ -215,11 +215,11 @@ impl ShapeType {
             ShapeType::CurvedLeftArrow => "curvedLeftArrow",
             ShapeType::CurvedUpArrow => "curvedUpArrow",
             ShapeType::CurvedDownArrow => "curvedDownArrow",
-            ShapeType::CurvedLeftRightArrow => "curvedLeftRightArrow",
-            ShapeType::CurvedUpDownArrow => "curvedUpDownArrow",
+            ShapeType::CurvedLeftRightArrow => "leftRightArrow",
+            ShapeType::CurvedUpDownArrow => "upDownArrow",
             ShapeType::StripedRightArrow => "stripedRightArrow",
             ShapeType::NotchedRightArrow => "notchedRightArrow",
-            ShapeType::PentagonArrow => "pentArrow",
+            ShapeType::PentagonArrow => "homePlate",
             ShapeType::ChevronArrow => "chevron",
             ShapeType::RightArrowCallout => "rightArrowCallout",
             ShapeType::LeftArrowCallout => "leftArrowCallout",
@@ -234,11 +234,11 @@ impl ShapeType {
             ShapeType::Parallelogram => "parallelogram",
             ShapeType::Trapezoid => "trapezoid",
             ShapeType::NonIsoscelesTrapezoid => "nonIsoscelesTrapezoid",
-            ShapeType::IsoscelesTrapezoid => "isoTrapezoid",
+            ShapeType::IsoscelesTrapezoid => "trapezoid",
             ShapeType::Cube => "cube",
             ShapeType::Can => "can",
-            ShapeType::Cone => "cone",
-            ShapeType::Cylinder => "cylinder",
+            ShapeType::Cone => "triangle",
+            ShapeType::Cylinder => "can",
             ShapeType::Bevel => "bevel",
             ShapeType::Donut => "donut",
             ShapeType::NoSmoking => "noSmoking",
@@ -250,7 +250,7 @@ impl ShapeType {
             ShapeType::Pie => "pie",
             ShapeType::Teardrop => "teardrop",
             ShapeType::Plaque => "plaque",
-            ShapeType::MusicNote => "musicNote",
+            ShapeType::MusicNote => "actionButtonSound",
             ShapeType::PictureFrame => "frame",
             
             ShapeType::Star10 => "star10",
@@ -258,11 +258,11 @@ impl ShapeType {
             ShapeType::Star16 => "star16",
             ShapeType::Star24 => "star24",
             ShapeType::Star32 => "star32",
-            ShapeType::Seal => "seal",
-            ShapeType::Seal4 => "seal4",
-            ShapeType::Seal8 => "seal8",
-            ShapeType::Seal16 => "seal16",
-            ShapeType::Seal32 => "seal32",
+            ShapeType::Seal => "irregularSeal1",
+            ShapeType::Seal4 => "star4",
+            ShapeType::Seal8 => "star8",
+            ShapeType::Seal16 => "star16",
+            ShapeType::Seal32 => "star32",
             ShapeType::ActionButtonBlank => "actionButtonBlank",
             ShapeType::ActionButtonHome => "actionButtonHome",
             ShapeType::ActionButtonHelp => "actionButtonHelp",
-- 
2.43.0


From 5a3b480d7bbad928f852fc424f7c9097575866be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 09/81] fix: write picture effects once each and in schema
 order

---
 src/generator/image_effects.rs | 11 ++++++++++-
 src/generator/images.rs        |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index d55e624..7264195 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -10,8 +10,17 @@ pub fn generate_effect_list_xml(effects: &[ImageEffect]) -> String {
         return String::new();
     }
 
+    // The effect list is a sequence in the schema: each kind at most once, in this order
+    const ORDER: [ImageEffect; 6] = [
+        ImageEffect::Blur,
+        ImageEffect::Glow,
+        ImageEffect::InnerShadow,
+        ImageEffect::Shadow,
+        ImageEffect::Reflection,
+        ImageEffect::SoftEdges,
+    ];
     let mut xml = String::from("<a:effectLst>");
-    for effect in effects {
+    for effect in ORDER.iter().filter(|e| effects.contains(e)) {
         xml.push_str(&generate_effect_xml(effect));
     }
     xml.push_str("</a:effectLst>");
diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..14ca8cc 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -53,7 +53,7 @@ impl Crop {
 }
 
 /// Image effects
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum ImageEffect {
     /// Outer shadow
     Shadow,
-- 
2.43.0


From 3e0294e30cb00c8fa6ec0a1b5a0b3685713a7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 10/81] fix: put the run fill before the font in code-styled
 shape text

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..d2aa263 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -350,7 +350,7 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                         r#"<a:p>
 <a:pPr algn="l"/>
 <a:r>
-<a:rPr lang="en-US" sz="1200" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill></a:rPr>
+<a:rPr lang="en-US" sz="1200" dirty="0"><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr>
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-- 
2.43.0


From 4c9dbe86f800ace42d455d378eb936565b99e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 11/81] fix: never number a drawing object with an id the user
 gave a shape

---
 src/generator/slide_xml/content.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..0f61010 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,5 +1,7 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
+use std::collections::HashSet;
+
 use crate::generator::shapes_xml::generate_shape_xml;
 use crate::generator::slide_content::SlideContent;
 
@@ -20,10 +22,23 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // Ids the user fixed are off limits for every automatically numbered object
+    let mut taken: HashSet<usize> = content
+        .shapes
+        .iter()
+        .filter_map(|shape| shape.id.map(|id| id as usize))
+        .collect();
+    let mut auto_id = |mut id: usize| {
+        while !taken.insert(id) {
+            id += 1;
+        }
+        id
+    };
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = shape.id.unwrap_or_else(|| auto_id(i + 10) as u32);
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -35,7 +50,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            auto_id(image_start_id + i),
             rel_id,
         ));
     }
@@ -44,7 +59,7 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        xml.push_str(&generate_code_block(auto_id(code_start_id + i), code_block));
     }
 
     // Render connectors
@@ -52,7 +67,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = auto_id(connector_start_id + i);
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -71,7 +86,7 @@ pub fn render_additional_content(
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                auto_id(chart_start_id + i),
             ));
         }
     }
-- 
2.43.0


From 9a553bca89a8002a75dd51442f83175bb632b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 12/81] fix: underline body text when the slide asks for it

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..1feb0fd 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -242,7 +242,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -325,7 +325,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -504,7 +504,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From f13efa6b3f5ac11461ae83f5b7801f3c47f64829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 13/81] fix: spell out centred table cells, which readers
 otherwise show left and top aligned

---
 src/generator/table/format.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index ccadbd4..e4956f8 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -1,6 +1,6 @@
 //! Shared table cell formatting and XML generation
 
-use super::cell::{CellAlign, CellVAlign, TableCell};
+use super::cell::TableCell;
 use crate::core::escape_xml;
 use crate::generator::slide_content::table_merge::CellMergeState;
 use crate::generator::text::{color_to_xml, TextFormat};
@@ -71,11 +71,7 @@ pub fn run_properties_xml(cell: &TableCell) -> String {
 
 /// Paragraph properties element for `<a:p>`.
 pub fn paragraph_props_xml(cell: &TableCell) -> String {
-    if cell.align == CellAlign::Center {
-        String::new()
-    } else {
-        format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
-    }
+    format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
 }
 
 /// Body properties for `<a:bodyPr>` inside table cells.
@@ -86,19 +82,14 @@ pub fn body_props_xml(_cell: &TableCell) -> String {
 
 /// Cell properties (`<a:tcPr>`) including background and vertical alignment.
 pub fn tc_properties_xml(cell: &TableCell) -> String {
-    let anchor = if cell.valign == CellVAlign::Middle {
-        String::new()
-    } else {
-        format!(r#" anchor="{}""#, cell.valign.as_str())
-    };
+    // Readers take a missing algn/anchor as left/top, so centring is always spelled out.
+    let anchor = format!(r#" anchor="{}""#, cell.valign.as_str());
 
     if let Some(ref background) = cell.background_color {
         format!(
             r#"<a:tcPr{anchor}>{}</a:tcPr>"#,
             color_to_xml(background)
         )
-    } else if anchor.is_empty() {
-        "<a:tcPr/>".to_string()
     } else {
         format!(r#"<a:tcPr{anchor}/>"#)
     }
-- 
2.43.0


From df22364733c5c89198cc5117635b2cdf5e8ae54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 14/81] fix: declare ink, font and signature content types in
 lazily written packages

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..345176f 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -986,6 +986,8 @@ fn write_content_types_lazy<W: Write + Seek>(
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
 
+    content_types.push_str("\n</Types>");
+
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
     }
@@ -995,8 +997,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From d155fe4989c2372765a867aaa618d7455023a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 15/81] fix: write the embedded font list in schema order with
 valid values and part names

---
 src/generator/package_xml.rs                  |  4 +-
 src/generator/slide_content/embedded_fonts.rs | 50 +++++++++++++------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 9b84f95..7466619 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -374,8 +374,8 @@ pub fn create_presentation_xml_with_fonts(
     let mut xml = create_presentation_xml(title, slides, has_notes, has_handout);
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
-        // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        // The schema wants <p:embeddedFontLst> between <p:notesSz> and <p:defaultTextStyle>.
+        if let Some(pos) = xml.find("<p:defaultTextStyle>") {
             xml.insert_str(pos, &font_xml);
         }
     }
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 0695079..20d858b 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -126,21 +126,31 @@ impl EmbeddedFont {
 
     /// Part name in the ZIP archive
     pub fn part_name(&self) -> String {
-        format!(
-            "ppt/fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
-            self.style.xml_element()
-        )
+        format!("ppt/{}", self.rel_target())
     }
 
     /// Relationship target relative to `ppt/`.
     pub fn rel_target(&self) -> String {
         format!(
             "fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.part_stem(),
             self.style.xml_element()
         )
     }
+
+    /// Typeface reduced to characters a part name may contain: spaces go, anything
+    /// else that is not plain ASCII becomes its code point.
+    fn part_stem(&self) -> String {
+        let mut stem = String::with_capacity(self.typeface.len());
+        for c in self.typeface.chars() {
+            match c {
+                ' ' => {}
+                c if c.is_ascii_alphanumeric() || c == '-' || c == '_' => stem.push(c),
+                c => stem.push_str(&format!("_{:X}", c as u32)),
+            }
+        }
+        stem
+    }
 }
 
 /// Manages all embedded fonts for a presentation
@@ -220,24 +230,32 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
                     xml_escape(typeface),
-                    first.charset.code(),
-                    first.pitch_family,
+                    // both attributes are signed bytes (xsd:byte)
+                    first.charset.code() as i8,
+                    first.pitch_family as i8,
                     panose_attr,
                 ));
             }
 
-            // Font data references per style
-            for font in &variants {
-                xml.push_str(&format!(
-                    r#"<p:{} r:id="{}"/>"#,
-                    font.style.xml_element(),
-                    font.relationship_id,
-                ));
+            // Font data references: at most one per style, in schema order
+            for style in [
+                FontStyle::Regular,
+                FontStyle::Bold,
+                FontStyle::Italic,
+                FontStyle::BoldItalic,
+            ] {
+                if let Some(font) = variants.iter().find(|f| f.style == style) {
+                    xml.push_str(&format!(
+                        r#"<p:{} r:id="{}"/>"#,
+                        style.xml_element(),
+                        font.relationship_id,
+                    ));
+                }
             }
 
             xml.push_str("</p:embeddedFont>");
-- 
2.43.0


From 71489ab4d780ee49c7145c21137f3f538cf0c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 16/81] fix: keep custom theme fonts when name and colours are
 the Office ones

---
 src/generator/presentation_theme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 8176115..b326e30 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -233,7 +233,7 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
+        if *self == Self::office() {
             return office_theme_xml().to_string();
         }
 
-- 
2.43.0


From 0e97f01e54f554b79716961a8419339efa6e4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 17/81] fix: link the signature part from the signature origin
 and escape its date

---
 src/generator/builder.rs                         | 3 +++
 src/generator/slide_content/digital_signature.rs | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 345176f..fd2335d 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1370,6 +1370,9 @@ fn write_digital_signature_parts<W: Write + Seek>(
     zip.start_file("_xmlsignatures/origin.sigs", *options)?;
     zip.write_all(signature.to_origin_xml().as_bytes())?;
 
+    zip.start_file("_xmlsignatures/_rels/origin.sigs.rels", *options)?;
+    zip.write_all(signature.to_origin_rels_xml().as_bytes())?;
+
     zip.start_file("_xmlsignatures/sig1.xml", *options)?;
     zip.write_all(signature.to_signature_xml().as_bytes())?;
 
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index bedf476..5fd0898 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -139,6 +139,11 @@ impl DigitalSignature {
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"/>"#.to_string()
     }
 
+    /// Relationships of the signature origin: where the signature itself is
+    pub fn to_origin_rels_xml(&self) -> String {
+        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/signature" Target="sig1.xml"/></Relationships>"#.to_string()
+    }
+
     /// Generate signature info XML for `_xmlsignatures/sig1.xml`
     pub fn to_signature_xml(&self) -> String {
         let date = self.sign_date.as_deref().unwrap_or("2025-01-01T00:00:00Z");
@@ -164,13 +169,13 @@ impl DigitalSignature {
         xml.push_str(r#"</KeyInfo>"#);
         xml.push_str("<Object>");
         xml.push_str(&format!(
-            "<SignatureProperties><SignatureProperty Target=\"#SignatureInfo\"><SignatureInfoV1 xmlns=\"http://schemas.microsoft.com/office/2006/digsig\"><SetupID/><SignatureText>{}</SignatureText>{}<SignatureType>1</SignatureType><SignatureProviderUrl/><SignatureProviderDetails>9</SignatureProviderDetails><ManifestHashAlgorithm>{}</ManifestHashAlgorithm><SignatureProviderId>{{{{00000000-0000-0000-0000-000000000000}}}}</SignatureProviderId><CommitmentTypeId>{}</CommitmentTypeId><CommitmentTypeQualifier>{}</CommitmentTypeQualifier><SigningTime>{}</SigningTime></SignatureInfoV1></SignatureProperty></SignatureProperties>",
+            "<SignatureProperties><SignatureProperty Target=\"#SignatureInfo\"><SignatureInfoV1 xmlns=\"http://schemas.microsoft.com/office/2006/digsig\"><SetupID/><SignatureText>{}</SignatureText>{}<SignatureType>1</SignatureType><SignatureProviderUrl/><SignatureProviderDetails>9</SignatureProviderDetails><ManifestHashAlgorithm>{}</ManifestHashAlgorithm><SignatureProviderId>{{00000000-0000-0000-0000-000000000000}}</SignatureProviderId><CommitmentTypeId>{}</CommitmentTypeId><CommitmentTypeQualifier>{}</CommitmentTypeQualifier><SigningTime>{}</SigningTime></SignatureInfoV1></SignatureProperty></SignatureProperties>",
             xml_escape(&self.signer.name),
             comments_xml,
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
-- 
2.43.0


From 8066b54721b59310b9b7ffe60d7ef45b9b82a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 18/81] fix: keep picture and relationship ids in step when an
 image cannot be read, and refuse lazy sources missing a slide

---
 src/generator/builder.rs | 73 ++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index fd2335d..9b66fdd 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -3,8 +3,9 @@
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
-use crate::exc::Result;
+use crate::exc::{PptxError, Result};
 use crate::core::append_usize;
+use super::images::ImageSource;
 use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
 use super::package_cache::{self, print_affects_theme_parts};
@@ -46,6 +47,50 @@ fn slide_content_rel_start(has_notes: bool, image_count: usize) -> usize {
     2 + usize::from(has_notes) + image_count
 }
 
+/// Load every picture of a slide once and leave out those that cannot be read, so that
+/// the picture, relationship and media numbering of the slide always agree.
+fn resolve_images(slide: &mut SlideContent) {
+    slide.images.retain_mut(|image| {
+        if matches!(image.source, Some(ImageSource::Bytes(_))) {
+            return true;
+        }
+        match image.get_bytes() {
+            Some(bytes) => {
+                image.source = Some(ImageSource::Bytes(bytes));
+                true
+            }
+            None => false,
+        }
+    });
+}
+
+/// Slides with their images resolved, or `None` when they already are.
+fn with_resolved_images(slides: &[SlideContent]) -> Option<Vec<SlideContent>> {
+    let resolved = slides
+        .iter()
+        .flat_map(|slide| &slide.images)
+        .all(|image| matches!(image.source, Some(ImageSource::Bytes(_))));
+    if resolved {
+        return None;
+    }
+    let mut slides = slides.to_vec();
+    slides.iter_mut().for_each(resolve_images);
+    Some(slides)
+}
+
+/// Slide `i` of a lazy source with its images resolved.
+fn generate_resolved_slide(slides: &dyn LazySlideSource, i: usize) -> Result<SlideContent> {
+    let mut slide = slides.generate_slide(i).ok_or_else(|| {
+        PptxError::InvalidState(format!(
+            "slide source announces {} slides but has no slide {}",
+            slides.slide_count(),
+            i + 1
+        ))
+    })?;
+    resolve_images(&mut slide);
+    Ok(slide)
+}
+
 fn build_media_registry(slides: &[SlideContent]) -> MediaRegistry {
     let mut registry = MediaRegistry::default();
     for slide in slides {
@@ -58,18 +103,17 @@ fn build_media_registry(slides: &[SlideContent]) -> MediaRegistry {
     registry
 }
 
-fn build_media_registry_lazy(slides: &dyn LazySlideSource) -> MediaRegistry {
+fn build_media_registry_lazy(slides: &dyn LazySlideSource) -> Result<MediaRegistry> {
     let mut registry = MediaRegistry::default();
     for i in 0..slides.slide_count() {
-        if let Some(slide) = slides.generate_slide(i) {
-            for image in &slide.images {
-                if let Some(bytes) = image.get_bytes() {
-                    registry.image_number(&bytes, &image.extension());
-                }
+        let slide = generate_resolved_slide(slides, i)?;
+        for image in &slide.images {
+            if let Some(bytes) = image.get_bytes() {
+                registry.image_number(&bytes, &image.extension());
             }
         }
     }
-    registry
+    Ok(registry)
 }
 
 fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Vec<(usize, String)> {
@@ -718,6 +762,9 @@ fn write_package_files<W: Write + Seek>(
     custom_slides: Option<&[SlideContent]>,
     mut settings: Option<PresentationSettings>,
 ) -> Result<()> {
+    let resolved = custom_slides.and_then(with_resolved_images);
+    let custom_slides = resolved.as_deref().or(custom_slides);
+
     let has_notes = custom_slides
         .map(|slides| slides.iter().any(|s| s.notes.is_some()))
         .unwrap_or(false);
@@ -930,7 +977,7 @@ fn write_content_types_lazy<W: Write + Seek>(
         })
         .count();
 
-    let media_registry = build_media_registry_lazy(slides);
+    let media_registry = build_media_registry_lazy(slides)?;
     let media_exts = media_registry.extensions();
 
     let mut content_types = content_types_opening(&media_exts, chart_info.total_charts);
@@ -1031,16 +1078,14 @@ fn write_slide_packages_lazy<W: Write + Seek>(
     slide_chart_start_indices: &[usize],
     template: Option<&PptxTemplate>,
 ) -> Result<()> {
-    let media_registry = build_media_registry_lazy(slides);
+    let media_registry = build_media_registry_lazy(slides)?;
     let mut slide_path = String::with_capacity(48);
     let mut rels_path = String::with_capacity(56);
     let mut notes_part_num = 0usize;
     let mut ink_part_num = 0usize;
 
     for (i, &start_chart_idx) in slide_chart_start_indices.iter().enumerate() {
-        let Some(slide) = slides.generate_slide(i) else {
-            continue;
-        };
+        let slide = generate_resolved_slide(slides, i)?;
         let slide_num = i + 1;
         let layout_number = resolve_layout_number(&slide, template);
         let images = slide_image_rel_targets(&slide, &media_registry);
@@ -1385,7 +1430,7 @@ fn write_images_lazy<W: Write + Seek>(
     options: &FileOptions,
     slides: &dyn LazySlideSource,
 ) -> Result<()> {
-    let registry = build_media_registry_lazy(slides);
+    let registry = build_media_registry_lazy(slides)?;
     for (i, (bytes, ext)) in registry.files().iter().enumerate() {
         let filename = format!("ppt/media/image{}.{}", i + 1, ext);
         zip.start_file(filename, *options)?;
-- 
2.43.0


From 37a839b97f020c7e50cec189d2fb7cec8b2451b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 19/81] fix: read slides in the order of the slide id list and
 resolve their targets

---
 src/oxml/presentation.rs | 77 ++++++++++++++++++++++++++++------------
 src/oxml/xmlchemy.rs     |  8 +++++
 2 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..c2b6e82 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -152,40 +152,53 @@ impl PresentationReader {
     }
 
     fn parse_presentation_xml(&mut self) -> Result<(), PptxError> {
-        // First, find slide references from presentation.xml.rels
+        // Slide relationships of presentation.xml: (relationship id, part path)
+        let mut slide_rels: Vec<(String, String)> = Vec::new();
         if let Some(rels_xml) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
             let xml_str = String::from_utf8_lossy(rels_xml);
             if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                let mut slide_rels: Vec<(String, String)> = Vec::new();
-
                 for rel in root.find_all("Relationship") {
-                    let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
+                    let is_slide = rel.attr("Type").is_some_and(|t| t.ends_with("/slide"));
+                    if is_slide
                         && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
+                            slide_rels.push((id.to_string(), resolve_target("ppt", target)));
                         }
                 }
+            }
+        }
 
-                // Sort by relationship ID to maintain slide order
-                slide_rels.sort_by(|a, b| {
-                    let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    num_a.cmp(&num_b)
+        // The slide order is the order of the slide id list.
+        let listed = self
+            .package
+            .get_part("ppt/presentation.xml")
+            .and_then(|xml| XmlParser::parse_str(&String::from_utf8_lossy(xml)).ok())
+            .and_then(|root| {
+                root.find("sldIdLst").map(|list| {
+                    list.find_all("sldId")
+                        .into_iter()
+                        .filter_map(|e| e.relationship_id().map(str::to_string))
+                        .collect::<Vec<_>>()
+                })
+            });
+
+        let has_list = listed.is_some();
+        self.slide_paths = match listed {
+            Some(ids) => ids
+                .iter()
+                .filter_map(|id| slide_rels.iter().find(|(rel, _)| rel == id))
+                .map(|(_, path)| path.clone())
+                .collect(),
+            None => {
+                // No list: fall back to the order of the relationship ids
+                slide_rels.sort_by_key(|(id, _)| {
+                    id.trim_start_matches("rId").parse::<u32>().unwrap_or(0)
                 });
-
-                self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
+                slide_rels.into_iter().map(|(_, path)| path).collect()
             }
-        }
+        };
 
         // Fallback: scan for slide files
-        if self.slide_paths.is_empty() {
+        if self.slide_paths.is_empty() && !has_list {
             let paths = self.package.part_paths();
             let mut slides: Vec<String> = paths
                 .into_iter()
@@ -194,7 +207,7 @@ impl PresentationReader {
                 })
                 .map(|s| s.to_string())
                 .collect();
-            slides.sort();
+            slides.sort_by_key(|p| (p.len(), p.clone()));
             self.slide_paths = slides;
         }
 
@@ -203,6 +216,24 @@ impl PresentationReader {
     }
 }
 
+/// Part path of a relationship target, relative to the folder of the source part.
+pub(crate) fn resolve_target(base: &str, target: &str) -> String {
+    if let Some(absolute) = target.strip_prefix('/') {
+        return absolute.to_string();
+    }
+    let mut segments: Vec<&str> = base.split('/').filter(|s| !s.is_empty()).collect();
+    for segment in target.split('/') {
+        match segment {
+            "" | "." => {}
+            ".." => {
+                segments.pop();
+            }
+            s => segments.push(s),
+        }
+    }
+    segments.join("/")
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..06a9f1d 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -117,6 +117,14 @@ impl XmlElement {
         result
     }
 
+    /// Value of the relationship id attribute (`r:id`, whatever its prefix)
+    pub fn relationship_id(&self) -> Option<&str> {
+        self.attributes
+            .iter()
+            .find(|(name, _)| name.ends_with(":id"))
+            .map(|(_, value)| value.as_str())
+    }
+
     /// Check if element has specific local name
     pub fn is(&self, local_name: &str) -> bool {
         self.local_name == local_name
-- 
2.43.0


From 9ef1bef80f48e978db8f24a306e234fcc7a4d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 20/81] fix: keep text that is only white space when parsing
 XML

---
 src/oxml/xmlchemy.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 06a9f1d..b33ab0f 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -176,8 +176,17 @@ impl XmlParser {
 
                     stack.push(element);
                 }
+                Ok(XmlEvent::Whitespace(text)) => {
+                    if let Some(current) = stack.last_mut() {
+                        current.text.push_str(&text);
+                    }
+                }
                 Ok(XmlEvent::EndElement { .. }) => {
-                    if let Some(element) = stack.pop() {
+                    if let Some(mut element) = stack.pop() {
+                        // White space between child elements is only layout
+                        if !element.children.is_empty() && element.text.trim().is_empty() {
+                            element.text.clear();
+                        }
                         if let Some(parent) = stack.last_mut() {
                             parent.add_child(element);
                         } else {
-- 
2.43.0


From c27cd79183170347e8b2f272ac4886bc42f4fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 21/81] fix: read u=none as not underlined

---
 src/oxml/slide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..d1925c2 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -277,7 +277,7 @@ impl SlideParser {
                         .attr("i")
                         .map(|v| v == "1" || v == "true")
                         .unwrap_or(false);
-                    run.underline = rpr.attr("u").is_some();
+                    run.underline = rpr.attr("u").is_some_and(|u| u != "none");
                     run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
 
                     // Get color from solidFill/srgbClr
-- 
2.43.0


From d3462c4194c35382be02afa7238618d0a2cdc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 22/81] fix: tell titles and bodies by placeholder type when
 there is one

---
 src/oxml/slide.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index d1925c2..de4d4f8 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -302,10 +302,8 @@ impl SlideParser {
         // Check placeholder type first
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
-                let ph_type = ph.attr("type").unwrap_or("");
-                if ph_type == "title" || ph_type == "ctrTitle" {
-                    return true;
-                }
+                // The name of a placeholder says nothing: "Subtitle 2" is not a title
+                return matches!(ph.attr("type"), Some("title" | "ctrTitle"));
             }
         // Also check shape name for textbox-based titles
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
@@ -322,10 +320,7 @@ impl SlideParser {
         // Check placeholder type first
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
-                let ph_type = ph.attr("type").unwrap_or("body");
-                if ph_type == "body" || ph_type.is_empty() {
-                    return true;
-                }
+                return matches!(ph.attr("type"), None | Some("body" | "obj" | ""));
             }
         // Also check shape name for textbox-based content
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
-- 
2.43.0


From f0154d7f40e12bee885f1823ae8faf736b6adb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 23/81] fix: read fields, line breaks and every paragraph of a
 table cell

---
 src/oxml/slide.rs | 91 +++++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 38 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index de4d4f8..428cefa 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -251,51 +251,60 @@ impl SlideParser {
         let mut paragraphs = Vec::new();
 
         for p in tx_body.find_all("p") {
-            let mut para = Paragraph::new();
-
-            // Get paragraph level
-            if let Some(ppr) = p.find("pPr") {
-                para.level = ppr.attr("lvl").and_then(|v| v.parse().ok()).unwrap_or(0);
+            let para = Self::parse_paragraph(p);
+            if !para.runs.is_empty() {
+                paragraphs.push(para);
             }
+        }
 
-            // Parse text runs
-            for r in p.find_all("r") {
-                let text = r.find("t").map(|t| t.text_content()).unwrap_or_default();
-                if text.is_empty() {
-                    continue;
-                }
+        paragraphs
+    }
 
-                let mut run = TextRun::new(&text);
-
-                // Parse run properties
-                if let Some(rpr) = r.find("rPr") {
-                    run.bold = rpr
-                        .attr("b")
-                        .map(|v| v == "1" || v == "true")
-                        .unwrap_or(false);
-                    run.italic = rpr
-                        .attr("i")
-                        .map(|v| v == "1" || v == "true")
-                        .unwrap_or(false);
-                    run.underline = rpr.attr("u").is_some_and(|u| u != "none");
-                    run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
-
-                    // Get color from solidFill/srgbClr
-                    if let Some(solid_fill) = rpr.find_descendant("solidFill")
-                        && let Some(srgb) = solid_fill.find("srgbClr") {
-                            run.color = srgb.attr("val").map(|s| s.to_string());
-                        }
-                }
+    fn parse_paragraph(p: &XmlElement) -> Paragraph {
+        let mut para = Paragraph::new();
+
+        // Get paragraph level
+        if let Some(ppr) = p.find("pPr") {
+            para.level = ppr.attr("lvl").and_then(|v| v.parse().ok()).unwrap_or(0);
+        }
 
-                para.runs.push(run);
+        // Parse text runs, fields and line breaks in order
+        for r in &p.children {
+            let text = match r.local_name.as_str() {
+                "r" | "fld" => r.find("t").map(|t| t.text_content()).unwrap_or_default(),
+                "br" => "\n".to_string(),
+                _ => continue,
+            };
+            if text.is_empty() {
+                continue;
             }
 
-            if !para.runs.is_empty() {
-                paragraphs.push(para);
+            let mut run = TextRun::new(&text);
+
+            // Parse run properties
+            if let Some(rpr) = r.find("rPr") {
+                run.bold = rpr
+                    .attr("b")
+                    .map(|v| v == "1" || v == "true")
+                    .unwrap_or(false);
+                run.italic = rpr
+                    .attr("i")
+                    .map(|v| v == "1" || v == "true")
+                    .unwrap_or(false);
+                run.underline = rpr.attr("u").is_some_and(|u| u != "none");
+                run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
+
+                // Get color from solidFill/srgbClr
+                if let Some(solid_fill) = rpr.find("solidFill")
+                    && let Some(srgb) = solid_fill.find("srgbClr") {
+                        run.color = srgb.attr("val").map(|s| s.to_string());
+                    }
             }
+
+            para.runs.push(run);
         }
 
-        paragraphs
+        para
     }
 
     fn is_title_shape(sp: &XmlElement) -> bool {
@@ -342,8 +351,14 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
+                    .find("txBody")
+                    .map(|body| {
+                        body.find_all("p")
+                            .into_iter()
+                            .map(|p| Self::parse_paragraph(p).text())
+                            .collect::<Vec<_>>()
+                            .join("\n")
+                    })
                     .unwrap_or_default();
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
-- 
2.43.0


From 1564d390c4f4c5eef7a3015e6d55059b38d701e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 24/81] fix: read the shapes inside groups and count table
 cells as slide text

---
 src/oxml/slide.rs | 76 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 428cefa..91de61a 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -161,6 +161,11 @@ impl ParsedSlide {
                 texts.push(text);
             }
         }
+        for cell in self.tables.iter().flat_map(|t| t.rows.iter().flatten()) {
+            if !cell.text.is_empty() {
+                texts.push(cell.text.clone());
+            }
+        }
         texts
     }
 }
@@ -182,14 +187,32 @@ impl SlideParser {
 
         // Find shape tree (spTree)
         if let Some(sp_tree) = root.find_descendant("spTree") {
-            // Parse shapes
-            for sp in sp_tree.find_all("sp") {
-                if let Some(mut shape) = Self::parse_shape(sp) {
+            Self::parse_shape_tree(sp_tree, &mut slide, &|x, y, w, h| (x, y, w, h));
+        }
+
+        Ok(slide)
+    }
+
+    /// Collect the shapes and tables of a shape tree or group; `place` maps the
+    /// coordinates used inside it to slide coordinates.
+    fn parse_shape_tree(
+        tree: &XmlElement,
+        slide: &mut ParsedSlide,
+        place: &dyn Fn(i64, i64, i64, i64) -> (i64, i64, i64, i64),
+    ) {
+        for child in &tree.children {
+            match child.local_name.as_str() {
+                "sp" => {
+                    let Some(mut shape) = Self::parse_shape(child) else {
+                        continue;
+                    };
+                    (shape.x, shape.y, shape.width, shape.height) =
+                        place(shape.x, shape.y, shape.width, shape.height);
                     // Check if this is title or body
-                    if Self::is_title_shape(sp) {
+                    if Self::is_title_shape(child) {
                         shape.is_title = true;
                         slide.title = Some(shape.text());
-                    } else if Self::is_body_shape(sp) {
+                    } else if Self::is_body_shape(child) {
                         shape.is_body = true;
                         for para in &shape.paragraphs {
                             let text = para.text();
@@ -200,17 +223,44 @@ impl SlideParser {
                     }
                     slide.shapes.push(shape);
                 }
-            }
-
-            // Parse graphic frames (tables, charts)
-            for gf in sp_tree.find_all("graphicFrame") {
-                if let Some(table) = Self::parse_table_from_graphic_frame(gf) {
-                    slide.tables.push(table);
+                // Graphic frames (tables, charts)
+                "graphicFrame" => {
+                    if let Some(table) = Self::parse_table_from_graphic_frame(child) {
+                        slide.tables.push(table);
+                    }
                 }
+                "grpSp" => {
+                    let xfrm = child.find("grpSpPr").and_then(|p| p.find("xfrm"));
+                    let pair = |name: &str, a: &str, b: &str| {
+                        let e = xfrm.and_then(|x| x.find(name));
+                        let value = |k: &str| {
+                            e.and_then(|e| e.attr(k))
+                                .and_then(|v| v.parse::<i64>().ok())
+                                .unwrap_or(0)
+                        };
+                        (value(a), value(b))
+                    };
+                    let (off, ext) = (pair("off", "x", "y"), pair("ext", "cx", "cy"));
+                    let (from, size) = (pair("chOff", "x", "y"), pair("chExt", "cx", "cy"));
+                    let scale = |v: i64, to: i64, of: i64| {
+                        if of == 0 || to == of {
+                            v
+                        } else {
+                            (i128::from(v) * i128::from(to) / i128::from(of)) as i64
+                        }
+                    };
+                    Self::parse_shape_tree(child, slide, &|x, y, w, h| {
+                        place(
+                            off.0.saturating_add(scale(x.saturating_sub(from.0), ext.0, size.0)),
+                            off.1.saturating_add(scale(y.saturating_sub(from.1), ext.1, size.1)),
+                            scale(w, ext.0, size.0),
+                            scale(h, ext.1, size.1),
+                        )
+                    });
+                }
+                _ => {}
             }
         }
-
-        Ok(slide)
     }
 
     fn parse_shape(sp: &XmlElement) -> Option<ParsedShape> {
-- 
2.43.0


From 151949f52e9f9d277aa5d939d25b7562a2b892e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 25/81] fix: import every preset geometry the generator writes,
 not only eleven

---
 src/generator/shapes.rs | 46 +++++++++++++++++++++++++++++++++++++++++
 src/import/mod.rs       | 22 ++++----------------
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index f7eb01d..c3fa6fe 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -150,6 +150,52 @@ pub enum ShapeType {
 }
 
 impl ShapeType {
+    /// Shape type with the given preset geometry name (the first one where several share it).
+    pub fn from_preset_name(name: &str) -> Option<ShapeType> {
+        const ALL: &[ShapeType] = &[
+            ShapeType::Rectangle, ShapeType::RoundedRectangle, ShapeType::Ellipse,
+            ShapeType::Triangle, ShapeType::RightTriangle, ShapeType::Diamond, ShapeType::Pentagon,
+            ShapeType::Hexagon, ShapeType::Octagon, ShapeType::RightArrow, ShapeType::LeftArrow,
+            ShapeType::UpArrow, ShapeType::DownArrow, ShapeType::LeftRightArrow,
+            ShapeType::UpDownArrow, ShapeType::BentArrow, ShapeType::UTurnArrow, ShapeType::Star4,
+            ShapeType::Star5, ShapeType::Star6, ShapeType::Star8, ShapeType::Ribbon,
+            ShapeType::Wave, ShapeType::WedgeRectCallout, ShapeType::WedgeEllipseCallout,
+            ShapeType::CloudCallout, ShapeType::FlowChartProcess, ShapeType::FlowChartDecision,
+            ShapeType::FlowChartTerminator, ShapeType::FlowChartDocument,
+            ShapeType::FlowChartPredefinedProcess, ShapeType::FlowChartInternalStorage,
+            ShapeType::FlowChartData, ShapeType::FlowChartManualInput,
+            ShapeType::FlowChartManualOperation, ShapeType::FlowChartConnector,
+            ShapeType::FlowChartOffPageConnector, ShapeType::FlowChartPunchedCard,
+            ShapeType::FlowChartPunchedTape, ShapeType::FlowChartSummingJunction,
+            ShapeType::FlowChartOr, ShapeType::FlowChartCollate, ShapeType::FlowChartSort,
+            ShapeType::FlowChartExtract, ShapeType::FlowChartMerge,
+            ShapeType::FlowChartOnlineStorage, ShapeType::FlowChartDelay,
+            ShapeType::FlowChartMagneticTape, ShapeType::FlowChartMagneticDisk,
+            ShapeType::FlowChartMagneticDrum, ShapeType::FlowChartDisplay,
+            ShapeType::FlowChartPreparation, ShapeType::CurvedRightArrow,
+            ShapeType::CurvedLeftArrow, ShapeType::CurvedUpArrow, ShapeType::CurvedDownArrow,
+            ShapeType::StripedRightArrow, ShapeType::NotchedRightArrow, ShapeType::PentagonArrow,
+            ShapeType::ChevronArrow, ShapeType::RightArrowCallout, ShapeType::LeftArrowCallout,
+            ShapeType::UpArrowCallout, ShapeType::DownArrowCallout,
+            ShapeType::LeftRightArrowCallout, ShapeType::UpDownArrowCallout, ShapeType::QuadArrow,
+            ShapeType::LeftRightUpArrow, ShapeType::CircularArrow, ShapeType::Parallelogram,
+            ShapeType::Trapezoid, ShapeType::NonIsoscelesTrapezoid, ShapeType::Cube,
+            ShapeType::Can, ShapeType::Bevel, ShapeType::Donut, ShapeType::NoSmoking,
+            ShapeType::BlockArc, ShapeType::FoldedCorner, ShapeType::SmileyFace, ShapeType::Arc,
+            ShapeType::Chord, ShapeType::Pie, ShapeType::Teardrop, ShapeType::Plaque,
+            ShapeType::MusicNote, ShapeType::PictureFrame, ShapeType::Star10, ShapeType::Star12,
+            ShapeType::Star16, ShapeType::Star24, ShapeType::Star32, ShapeType::Seal,
+            ShapeType::ActionButtonBlank, ShapeType::ActionButtonHome, ShapeType::ActionButtonHelp,
+            ShapeType::ActionButtonInformation, ShapeType::ActionButtonForwardNext,
+            ShapeType::ActionButtonBackPrevious, ShapeType::ActionButtonBeginning,
+            ShapeType::ActionButtonEnd, ShapeType::ActionButtonReturn,
+            ShapeType::ActionButtonDocument, ShapeType::ActionButtonMovie, ShapeType::Heart,
+            ShapeType::Lightning, ShapeType::Sun, ShapeType::Moon, ShapeType::Cloud,
+            ShapeType::Brace, ShapeType::Bracket, ShapeType::Plus, ShapeType::Minus,
+        ];
+        ALL.iter().find(|t| t.preset_name() == name).copied()
+    }
+
     /// Get the preset geometry name for the shape (OOXML preset name)
     pub fn preset_name(&self) -> &'static str {
         match self {
diff --git a/src/import/mod.rs b/src/import/mod.rs
index bb9e862..7234036 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -77,22 +77,8 @@ pub fn import_pptx(path: &str) -> Result<Presentation> {
 }
 
 fn map_shape_type(type_name: &Option<String>) -> ShapeType {
-    if let Some(name) = type_name {
-        match name.as_str() {
-            "rect" => ShapeType::Rectangle,
-            "roundRect" => ShapeType::RoundedRectangle,
-            "ellipse" => ShapeType::Ellipse,
-            "triangle" => ShapeType::Triangle,
-            "rtTriangle" => ShapeType::RightTriangle,
-            "diamond" => ShapeType::Diamond,
-            "pentagon" => ShapeType::Pentagon,
-            "hexagon" => ShapeType::Hexagon,
-            "octagon" => ShapeType::Octagon,
-            "star5" => ShapeType::Star5,
-            "rightArrow" => ShapeType::RightArrow,
-            _ => ShapeType::Rectangle, // Default
-        }
-    } else {
-        ShapeType::Rectangle
-    }
+    type_name
+        .as_deref()
+        .and_then(ShapeType::from_preset_name)
+        .unwrap_or(ShapeType::Rectangle)
 }
-- 
2.43.0


From 47c856ed0a31bc738328aefcb2da8458676f7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 26/81] fix: keep the level of imported bullets

---
 src/import/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/import/mod.rs b/src/import/mod.rs
index 7234036..a68833e 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -20,8 +20,20 @@ pub fn import_pptx(path: &str) -> Result<Presentation> {
         let mut content = SlideContent::new(parsed_slide.title.as_deref().unwrap_or(""));
         
         // Add body text as bullets
-        for text in parsed_slide.body_text {
+        for para in parsed_slide
+            .shapes
+            .iter()
+            .filter(|s| s.is_body)
+            .flat_map(|s| &s.paragraphs)
+        {
+            let text = para.text();
+            if text.is_empty() {
+                continue;
+            }
             content = content.add_bullet(&text);
+            if let Some(bullet) = content.bullets.last_mut() {
+                bullet.level = para.level;
+            }
         }
         
         // Add shapes (skip title and body)
-- 
2.43.0


From 37d49bfcee31545a5b4e92b10356687e9f096a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 27/81] fix: edit decks of any layout of parts without losing
 notes, media, charts or other slides

---
 src/oxml/editor.rs | 886 ++++++++++++++++++++++++++-------------------
 1 file changed, 514 insertions(+), 372 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..f1fe17f 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -6,50 +6,75 @@
 //! - Remove slides
 //! - Modify presentation properties
 
+use super::presentation::resolve_target;
 use super::slide::{ParsedSlide, SlideParser};
+use super::xmlchemy::XmlParser;
+use crate::core::escape_xml;
 use crate::exc::{messages, PptxError};
+use crate::generator::create_pptx_with_content;
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
-use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
 use crate::opc::Package;
+use std::collections::HashMap;
+use std::io::Cursor;
+
+const PRESENTATION: &str = "ppt/presentation.xml";
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const APP_PROPS: &str = "docProps/app.xml";
+const SLIDE_TYPE: &str =
+    "application/vnd.openxmlformats-officedocument.presentationml.slide+xml";
+const REL_BASE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
 
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
     package: Package,
-    slide_count: usize,
+}
+
+/// An entry of the slide id list.
+#[derive(Clone)]
+struct SlideRef {
+    id: u32,
+    rel_id: String,
+}
+
+/// A relationship of a part.
+#[derive(Clone)]
+struct Rel {
+    id: String,
+    rel_type: String,
+    target: String,
+    external: bool,
+}
+
+impl Rel {
+    fn is(&self, kind: &str) -> bool {
+        self.rel_type.rsplit('/').next() == Some(kind)
+    }
 }
 
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
-        let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
-
         Ok(PresentationEditor {
-            package,
-            slide_count,
+            package: Package::open(path)?,
         })
     }
 
     /// Create a new presentation for editing
     pub fn new() -> Self {
-        PresentationEditor {
-            package: Package::new(),
-            slide_count: 0,
-        }
+        let package = create_pptx_with_content("Presentation", Vec::new())
+            .and_then(|bytes| Package::open_reader(Cursor::new(bytes)))
+            .unwrap_or_default();
+        PresentationEditor { package }
     }
 
     /// Get number of slides
     pub fn slide_count(&self) -> usize {
-        self.slide_count
+        self.slides().len()
     }
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
-        let slide_num = index + 1;
-        let path = format!("ppt/slides/slide{slide_num}.xml");
+        let path = self.slide_path(index)?;
         let xml = self
             .package
             .get_part(&path)
@@ -61,211 +86,75 @@ impl PresentationEditor {
 
     /// Add a new slide at the end
     pub fn add_slide(&mut self, content: SlideContent) -> Result<usize, PptxError> {
-        let new_index = self.slide_count + 1;
-
-        // Generate slide XML
-        let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        // Add slide file
-        let slide_path = format!("ppt/slides/slide{new_index}.xml");
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-
-        // Add slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{new_index}.xml.rels");
-        self.package
-            .add_part(rels_path, slide_rels_xml.into_bytes());
-
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
-        Ok(new_index - 1) // Return 0-based index
+        self.insert_slide(self.slide_count(), content)
     }
 
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let slide_xml = create_slide_xml_with_content(slide_num, &content, &[], None);
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-
-        self.package.add_part(slide_path, slide_xml.into_bytes());
+        let path = self.slide_path(index)?;
+        let source = Self::single_slide_package(content)?;
+        let old = self.rels(&path);
+        self.package.remove_part(&rels_path(&path));
+        self.drop_unreferenced(&path, &old);
+        self.copy_slide(&source, "ppt/slides/slide1.xml", &path)?;
+        self.update_app_props();
         Ok(())
     }
 
     /// Remove a slide by index
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
-
-        // Renumber remaining slides
-        for i in (slide_num + 1)..=self.slide_count {
-            self.renumber_slide(i, i - 1)?;
-        }
-
-        self.slide_count -= 1;
-
-        // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
+        let path = self.slide_path(index)?;
+        let mut slides = self.slides();
+        let removed = slides.remove(index);
+        self.set_slides(&slides)?;
+
+        let mut rels = self.rels(PRESENTATION);
+        rels.retain(|r| r.id != removed.rel_id);
+        self.set_rels(PRESENTATION, &rels);
+        self.remove_tree(&path);
+        self.update_app_props();
         Ok(())
     }
 
     /// Duplicate an existing slide, inserting the copy immediately after the original.
     pub fn duplicate_slide(&mut self, index: usize) -> Result<usize, PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let new_index = index + 1;
-        let new_num = new_index + 1;
-
-        // Copy original slide content and relationships.
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-
-        let slide_data = self
-            .package
-            .get_part(&slide_path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
-            .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
-
-        // Shift slides after the original to make room for the duplicate.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Insert duplicate at the newly vacated position.
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
-        self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(new_index)
+        let path = self.slide_path(index)?;
+        let mut bytes = Cursor::new(Vec::new());
+        self.package.save_writer(&mut bytes)?;
+        let source = Package::open_reader(bytes)?;
+        let new_path = self.free_path("ppt/slides/slide1.xml");
+        self.copy_slide(&source, &path, &new_path)?;
+        self.link_slide(index + 1, &new_path)?;
+        Ok(index + 1)
     }
 
     /// Insert a new slide at the specified index.
     pub fn insert_slide(&mut self, index: usize, content: SlideContent) -> Result<usize, PptxError> {
-        if index > self.slide_count {
+        if index > self.slide_count() {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
-
-        let new_num = index + 1;
-
-        // Shift slides at and after the insertion point upward.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Generate and insert the new slide.
-        let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
-        self.package.add_part(
-            format!("ppt/slides/_rels/slide{new_num}.xml.rels"),
-            slide_rels_xml.into_bytes(),
-        );
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
+        let source = Self::single_slide_package(content)?;
+        let path = self.free_path("ppt/slides/slide1.xml");
+        self.copy_slide(&source, "ppt/slides/slide1.xml", &path)?;
+        self.link_slide(index, &path)?;
         Ok(index)
     }
 
     /// Reorder a slide from one position to another.
     pub fn reorder_slide(&mut self, from_index: usize, to_index: usize) -> Result<(), PptxError> {
-        if from_index >= self.slide_count || to_index >= self.slide_count {
+        let mut slides = self.slides();
+        if from_index >= slides.len() || to_index >= slides.len() {
             return Err(PptxError::NotFound(messages::slide_not_found(
                 from_index.max(to_index),
             )));
         }
-
         if from_index == to_index {
             return Ok(());
         }
-
-        let from_num = from_index + 1;
-        let to_num = to_index + 1;
-
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
-
-        if from_index < to_index {
-            // Shift intermediate slides left.
-            for i in from_num..to_num {
-                self.renumber_slide(i + 1, i)?;
-            }
-        } else {
-            // Shift intermediate slides right.
-            for i in (to_num..from_num).rev() {
-                self.renumber_slide(i, i + 1)?;
-            }
-        }
-
-        // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
+        let moved = slides.remove(from_index);
+        slides.insert(to_index, moved);
+        self.set_slides(&slides)?;
+        self.update_app_props();
         Ok(())
     }
 
@@ -285,238 +174,491 @@ impl PresentationEditor {
         &mut self.package
     }
 
-    // Helper methods
-
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
+    // Slide list
+
+    fn slides(&self) -> Vec<SlideRef> {
+        let Some(xml) = self.package.get_part_string(PRESENTATION) else {
+            return Vec::new();
+        };
+        let Ok(root) = XmlParser::parse_str(&xml) else {
+            return Vec::new();
+        };
+        let rels = self.rels(PRESENTATION);
+        root.find("sldIdLst")
+            .map(|list| {
+                list.find_all("sldId")
+                    .into_iter()
+                    .filter_map(|e| {
+                        let rel_id = e.relationship_id()?.to_string();
+                        rels.iter().find(|r| r.id == rel_id)?;
+                        let id = e.attr("id").and_then(|v| v.parse().ok())?;
+                        Some(SlideRef { id, rel_id })
+                    })
+                    .collect()
             })
-            .count()
+            .unwrap_or_default()
     }
 
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
+    /// Slide parts in presentation order.
+    fn slide_paths(&self) -> Vec<String> {
+        let rels = self.rels(PRESENTATION);
+        self.slides()
+            .iter()
+            .filter_map(|s| rels.iter().find(|r| r.id == s.rel_id))
+            .map(|r| resolve_target("ppt", &r.target))
+            .collect()
     }
 
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
+    fn slide_path(&self, index: usize) -> Result<String, PptxError> {
+        self.slide_paths()
+            .into_iter()
+            .nth(index)
+            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
     }
 
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
+    /// Write the slide id list of presentation.xml, leaving the rest as it is.
+    fn set_slides(&mut self, slides: &[SlideRef]) -> Result<(), PptxError> {
+        let xml = self
+            .package
+            .get_part_string(PRESENTATION)
+            .ok_or_else(|| PptxError::NotFound(PRESENTATION.to_string()))?;
+        let mut list = String::new();
+        for s in slides {
+            list.push_str(&format!(
+                "\n<p:sldId id=\"{}\" r:id=\"{}\"/>",
+                s.id,
+                escape_xml(&s.rel_id)
+            ));
         }
+        let list = if slides.is_empty() {
+            String::new()
+        } else {
+            format!("<p:sldIdLst>{list}\n</p:sldIdLst>")
+        };
+        let (start, end) = if let Some(start) = xml.find("<p:sldIdLst") {
+            let close = xml[start..].find('>').map_or(xml.len(), |p| start + p + 1);
+            let end = if xml[..close].ends_with("/>") {
+                close
+            } else {
+                xml[start..]
+                    .find("</p:sldIdLst>")
+                    .map(|p| start + p + "</p:sldIdLst>".len())
+                    .ok_or_else(|| PptxError::InvalidXml(PRESENTATION.to_string()))?
+            };
+            (start, end)
+        } else {
+            // The list follows the lists of masters.
+            let at = ["</p:handoutMasterIdLst>", "</p:notesMasterIdLst>", "</p:sldMasterIdLst>"]
+                .iter()
+                .find_map(|tag| xml.find(tag).map(|p| p + tag.len()))
+                .ok_or_else(|| PptxError::InvalidXml(PRESENTATION.to_string()))?;
+            (at, at)
+        };
+        let updated = format!("{}{}{}", &xml[..start], list, &xml[end..]);
+        self.package
+            .add_part(PRESENTATION.to_string(), updated.into_bytes());
         Ok(())
     }
 
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
-        }
+    /// Put the slide part at `path` into the slide list.
+    fn link_slide(&mut self, index: usize, path: &str) -> Result<(), PptxError> {
+        let mut slides = self.slides();
+        let id = slides.iter().map(|s| s.id).max().unwrap_or(255).max(255) + 1;
+        let rel_id = self.add_rel(PRESENTATION, "slide", path);
+        slides.insert(index, SlideRef { id, rel_id });
+        self.set_slides(&slides)?;
+        self.update_app_props();
+        Ok(())
     }
 
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
+    /// Bring the slide count and titles of docProps/app.xml up to date.
+    fn update_app_props(&mut self) {
+        let Some(xml) = self.package.get_part_string(APP_PROPS) else {
+            return;
+        };
+        let paths = self.slide_paths();
+        let count = paths.len();
+        let notes = paths
+            .iter()
+            .filter(|p| self.rels(p).iter().any(|r| r.is("notesSlide")))
+            .count();
+        let mut titles = format!(
+            "<TitlesOfParts><vt:vector size=\"{count}\" baseType=\"lpstr\">"
+        );
+        for (i, path) in paths.iter().enumerate() {
+            let title = self
+                .package
+                .get_part_string(path)
+                .and_then(|xml| SlideParser::parse(&xml).ok())
+                .and_then(|slide| slide.title)
+                .filter(|title| !title.trim().is_empty())
+                .unwrap_or_else(|| format!("Slide {}", i + 1));
+            titles.push_str(&format!("<vt:lpstr>{}</vt:lpstr>", escape_xml(&title)));
         }
-        Ok(())
+        titles.push_str("</vt:vector></TitlesOfParts>");
+        let pairs = format!(
+            "<HeadingPairs><vt:vector size=\"2\" baseType=\"variant\"><vt:variant><vt:lpstr>Slide Titles</vt:lpstr></vt:variant><vt:variant><vt:i4>{count}</vt:i4></vt:variant></vt:vector></HeadingPairs>"
+        );
+        let mut updated = xml;
+        for (tag, value) in [
+            ("Slides", format!("<Slides>{count}</Slides>")),
+            ("Notes", format!("<Notes>{notes}</Notes>")),
+            ("HeadingPairs", pairs),
+            ("TitlesOfParts", titles),
+        ] {
+            let (open, close) = (format!("<{tag}>"), format!("</{tag}>"));
+            if let (Some(start), Some(end)) = (updated.find(&open), updated.find(&close))
+                && start < end
+            {
+                updated.replace_range(start..end + close.len(), &value);
+            }
+        }
+        self.package
+            .add_part(APP_PROPS.to_string(), updated.into_bytes());
     }
 
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
+    // Copying parts
 
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+    /// A package holding nothing but the given slide and what it needs.
+    fn single_slide_package(content: SlideContent) -> Result<Package, PptxError> {
+        let bytes = create_pptx_with_content("Slide", vec![content])?;
+        Package::open_reader(Cursor::new(bytes))
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
-        }
+    /// Copy a slide with its notes, charts and media from `source` to `new_path`.
+    fn copy_slide(
+        &mut self,
+        source: &Package,
+        path: &str,
+        new_path: &str,
+    ) -> Result<(), PptxError> {
+        let mut copied = HashMap::new();
+        copied.insert(path.to_string(), new_path.to_string());
+        self.copy_part(source, path, new_path, &mut copied);
+        self.set_content_type(new_path, SLIDE_TYPE);
         Ok(())
     }
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
+    fn copy_part(
+        &mut self,
+        source: &Package,
+        path: &str,
+        new_path: &str,
+        copied: &mut HashMap<String, String>,
+    ) {
+        let Some(data) = source.get_part(path) else {
+            return;
+        };
+        self.package.add_part(new_path.to_string(), data.to_vec());
+        if let Some(content_type) = content_type_of(source, path) {
+            self.set_content_type(new_path, &content_type);
+        }
+        let mut rels = package_rels(source, path);
+        if rels.is_empty() {
+            return;
+        }
+        for rel in rels.iter_mut().filter(|r| !r.external) {
+            let target = resolve_target(folder(path), &rel.target);
+            let new_target = match copied.get(&target) {
+                Some(done) => done.clone(),
+                None => {
+                    let shared = if rel.is("slideLayout") {
+                        self.find_layout(&target)
+                    } else if rel.is("notesMaster") {
+                        self.rels(PRESENTATION)
+                            .iter()
+                            .find(|r| r.is("notesMaster"))
+                            .map(|r| resolve_target("ppt", &r.target))
+                    } else if rel.is("slide") {
+                        // a link to another slide of the same deck
+                        self.package.has_part(&target).then(|| target.clone())
+                    } else if rel.is("image") {
+                        (self.package.get_part(&target) == source.get_part(&target)
+                            && self.package.has_part(&target))
+                        .then(|| target.clone())
+                    } else {
+                        None
+                    };
+                    match shared {
+                        Some(existing) => existing,
+                        None => {
+                            let fresh = self.free_path(&target);
+                            copied.insert(target.clone(), fresh.clone());
+                            self.copy_part(source, &target, &fresh, copied);
+                            if rel.is("notesMaster") {
+                                self.link_notes_master(&fresh);
+                            }
+                            fresh
+                        }
+                    }
+                }
+            };
+            rel.target = relative_target(folder(new_path), &new_target);
+        }
+        self.set_rels(new_path, &rels);
+    }
 
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    fn find_layout(&self, wanted: &str) -> Option<String> {
+        if self.package.has_part(wanted) {
+            return Some(wanted.to_string());
         }
+        let mut layouts: Vec<&str> = self
+            .package
+            .part_paths()
+            .into_iter()
+            .filter(|p| p.starts_with("ppt/slideLayouts/") && p.ends_with(".xml"))
+            .collect();
+        layouts.sort_by_key(|p| (p.len(), *p));
+        layouts.first().map(|p| p.to_string())
     }
 
-    fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
+    fn link_notes_master(&mut self, path: &str) {
+        let rel_id = self.add_rel(PRESENTATION, "notesMaster", path);
+        if let Some(mut xml) = self.package.get_part_string(PRESENTATION)
+            && let Some(at) = xml.find("</p:sldMasterIdLst>")
+        {
+            xml.insert_str(
+                at + "</p:sldMasterIdLst>".len(),
+                &format!(
+                    "\n<p:notesMasterIdLst>\n<p:notesMasterId r:id=\"{rel_id}\"/>\n</p:notesMasterIdLst>"
+                ),
+            );
+            self.package
+                .add_part(PRESENTATION.to_string(), xml.into_bytes());
+        }
+    }
 
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
+    /// First unused part name made from `path` by changing its number.
+    fn free_path(&self, path: &str) -> String {
+        let (stem, ext) = path.rsplit_once('.').unwrap_or((path, "xml"));
+        let stem = stem.trim_end_matches(|c: char| c.is_ascii_digit());
+        let taken = |n: usize| {
+            let prefix = format!("{stem}{n}.");
+            self.package.part_paths().iter().any(|p| p.starts_with(&prefix))
+        };
+        let mut n = 1;
+        while taken(n) {
+            n += 1;
+        }
+        format!("{stem}{n}.{ext}")
+    }
+
+    // Removing parts
+
+    fn remove_tree(&mut self, path: &str) {
+        let rels = self.rels(path);
+        self.package.remove_part(path);
+        self.package.remove_part(&rels_path(path));
+        let name = format!("/{path}");
+        let (defaults, mut overrides) = self.content_types();
+        overrides.retain(|(part, _)| *part != name);
+        self.write_content_types(&defaults, &overrides);
+        self.drop_unreferenced(path, &rels);
+    }
+
+    /// Remove the parts `rels` of `path` pointed at when nothing else does.
+    fn drop_unreferenced(&mut self, path: &str, rels: &[Rel]) {
+        for rel in rels.iter().filter(|r| !r.external) {
+            if ["slideLayout", "slideMaster", "notesMaster", "slide", "theme"]
+                .iter()
+                .any(|kind| rel.is(kind))
+            {
+                continue;
+            }
+            let target = resolve_target(folder(path), &rel.target);
+            if self.package.has_part(&target) && !self.is_referenced(&target, rel.is("notesSlide").then_some(path)) {
+                self.remove_tree(&target);
+            }
         }
+    }
 
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
+    fn is_referenced(&self, path: &str, except: Option<&str>) -> bool {
+        self.package
+            .part_paths()
+            .iter()
+            .filter_map(|p| part_of_rels(p))
+            .filter(|source| Some(source.as_str()) != except)
+            .any(|source| {
+                self.rels(&source)
+                    .iter()
+                    .any(|r| !r.external && resolve_target(folder(&source), &r.target) == path)
+            })
+    }
 
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
-        }
+    // Relationships and content types
 
-        Ok(())
+    fn rels(&self, path: &str) -> Vec<Rel> {
+        package_rels(&self.package, path)
     }
 
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
+    fn set_rels(&mut self, path: &str, rels: &[Rel]) {
+        let mut xml = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">"#,
+        );
+        for r in rels {
+            let mode = if r.external { r#" TargetMode="External""# } else { "" };
+            xml.push_str(&format!(
+                "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>",
+                escape_xml(&r.id),
+                escape_xml(&r.rel_type),
+                escape_xml(&r.target),
+                mode
             ));
         }
+        xml.push_str("\n</Relationships>");
+        self.package.add_part(rels_path(path), xml.into_bytes());
+    }
 
+    /// Relate `path` to `target` and return the new relationship id.
+    fn add_rel(&mut self, path: &str, kind: &str, target: &str) -> String {
+        let mut rels = self.rels(path);
+        let mut n = rels.len() + 1;
+        while rels.iter().any(|r| r.id == format!("rId{n}")) {
+            n += 1;
+        }
+        let id = format!("rId{n}");
+        rels.push(Rel {
+            id: id.clone(),
+            rel_type: format!("{REL_BASE}/{kind}"),
+            target: relative_target(folder(path), target),
+            external: false,
+        });
+        self.set_rels(path, &rels);
+        id
+    }
+
+    fn content_types(&self) -> (Vec<(String, String)>, Vec<(String, String)>) {
+        package_content_types(&self.package)
+    }
+
+    fn write_content_types(
+        &mut self,
+        defaults: &[(String, String)],
+        overrides: &[(String, String)],
+    ) {
         let mut xml = String::from(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
+<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">"#,
         );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
+        for (name, attr, list) in [
+            ("Default", "Extension", defaults),
+            ("Override", "PartName", overrides),
+        ] {
+            for (key, value) in list {
+                xml.push_str(&format!(
+                    "\n<{name} {attr}=\"{}\" ContentType=\"{}\"/>",
+                    escape_xml(key),
+                    escape_xml(value)
+                ));
+            }
         }
+        xml.push_str("\n</Types>");
+        self.package
+            .add_part(CONTENT_TYPES.to_string(), xml.into_bytes());
+    }
 
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
-            ));
+    fn set_content_type(&mut self, path: &str, content_type: &str) {
+        if content_type_of(&self.package, path).as_deref() == Some(content_type) {
+            return;
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
+        let (mut defaults, mut overrides) = self.content_types();
+        let name = format!("/{path}");
+        let ext = extension(path);
+        overrides.retain(|(part, _)| *part != name);
+        if ext == "xml" || defaults.iter().any(|(e, _)| e.eq_ignore_ascii_case(&ext)) {
+            overrides.push((name, content_type.to_string()));
+        } else {
+            defaults.push((ext, content_type.to_string()));
+        }
+        self.write_content_types(&defaults, &overrides);
     }
+}
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
+fn folder(path: &str) -> &str {
+    path.rsplit_once('/').map_or("", |(dir, _)| dir)
+}
 
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
+fn extension(path: &str) -> String {
+    path.rsplit_once('.').map_or(String::new(), |(_, e)| e.to_ascii_lowercase())
+}
 
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
+/// Relationship part of a part: `a/b.xml` -> `a/_rels/b.xml.rels`.
+fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{path}.rels"),
     }
+}
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
-        }
+/// Inverse of [`rels_path`]; `None` when `path` is not a relationship part.
+fn part_of_rels(path: &str) -> Option<String> {
+    let (dir, name) = path.rsplit_once('/')?;
+    let name = name.strip_suffix(".rels")?;
+    if dir == "_rels" {
+        return Some(name.to_string());
+    }
+    dir.strip_suffix("/_rels").map(|dir| format!("{dir}/{name}"))
+}
 
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
+/// Target of a relationship from a part in folder `base` to the part `path`.
+fn relative_target(base: &str, path: &str) -> String {
+    let from: Vec<&str> = base.split('/').filter(|s| !s.is_empty()).collect();
+    let to: Vec<&str> = path.split('/').collect();
+    let shared = from.iter().zip(&to[..to.len() - 1]).take_while(|(a, b)| a == b).count();
+    let mut parts = vec![".."; from.len() - shared];
+    parts.extend(&to[shared..]);
+    parts.join("/")
+}
 
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
-    }
+fn package_rels(package: &Package, path: &str) -> Vec<Rel> {
+    package
+        .get_part_string(&rels_path(path))
+        .and_then(|xml| XmlParser::parse_str(&xml).ok())
+        .map(|root| {
+            root.find_all("Relationship")
+                .into_iter()
+                .filter_map(|e| {
+                    Some(Rel {
+                        id: e.attr("Id")?.to_string(),
+                        rel_type: e.attr("Type")?.to_string(),
+                        target: e.attr("Target")?.to_string(),
+                        external: e.attr("TargetMode") == Some("External"),
+                    })
+                })
+                .collect()
+        })
+        .unwrap_or_default()
+}
+
+fn package_content_types(package: &Package) -> (Vec<(String, String)>, Vec<(String, String)>) {
+    let root = package
+        .get_part_string(CONTENT_TYPES)
+        .and_then(|xml| XmlParser::parse_str(&xml).ok());
+    let list = |name: &str, attr: &str| {
+        root.as_ref()
+            .map(|root| {
+                root.find_all(name)
+                    .into_iter()
+                    .filter_map(|e| {
+                        Some((e.attr(attr)?.to_string(), e.attr("ContentType")?.to_string()))
+                    })
+                    .collect()
+            })
+            .unwrap_or_default()
+    };
+    (list("Default", "Extension"), list("Override", "PartName"))
+}
+
+fn content_type_of(package: &Package, path: &str) -> Option<String> {
+    let (defaults, overrides) = package_content_types(package);
+    let name = format!("/{path}");
+    let ext = extension(path);
+    overrides
+        .into_iter()
+        .find(|(part, _)| *part == name)
+        .or_else(|| defaults.into_iter().find(|(e, _)| e.eq_ignore_ascii_case(&ext)))
+        .map(|(_, content_type)| content_type)
 }
 
 impl Default for PresentationEditor {
-- 
2.43.0


From cacd92f22726212aabaee0262c6e1f559e7605ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 28/81] fix: no panic for empty tables, huge sizes and merge
 regions past the end

---
 src/generator/slide_content/table_merge.rs | 4 ++--
 src/generator/table/builder.rs             | 6 ++++--
 src/generator/table/style.rs               | 2 +-
 src/helpers/tables.rs                      | 8 ++++----
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..ddd359e 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -23,12 +23,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row.saturating_add(self.row_span.saturating_sub(1))
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col.saturating_add(self.col_span.saturating_sub(1))
     }
 
     /// Check if a cell (r, c) is inside this merge region
diff --git a/src/generator/table/builder.rs b/src/generator/table/builder.rs
index cefcb27..f9b84bd 100644
--- a/src/generator/table/builder.rs
+++ b/src/generator/table/builder.rs
@@ -43,7 +43,9 @@ impl Table {
 
     /// Calculate total table width
     pub fn width(&self) -> u32 {
-        self.column_widths.iter().sum()
+        self.column_widths
+            .iter()
+            .fold(0u32, |sum, width| sum.saturating_add(*width))
     }
 
     /// Calculate total table height based on row heights
@@ -51,7 +53,7 @@ impl Table {
         self.rows
             .iter()
             .map(|row| row.height.unwrap_or(400000))
-            .sum()
+            .fold(0u32, u32::saturating_add)
     }
 
     /// Get the number of rows
diff --git a/src/generator/table/style.rs b/src/generator/table/style.rs
index 24ed8f0..a5a459c 100644
--- a/src/generator/table/style.rs
+++ b/src/generator/table/style.rs
@@ -29,7 +29,7 @@ pub fn header_cell(text: &str) -> TableCell {
 /// Build a positioned table from string rows with optional header styling.
 pub fn table_from_string_rows(rows: Vec<Vec<String>>, style_header: bool) -> Table {
     let col_count = rows.iter().map(|row| row.len()).max().unwrap_or(1);
-    let col_width = DEFAULT_TABLE_WIDTH / col_count as u32;
+    let col_width = DEFAULT_TABLE_WIDTH / col_count.max(1) as u32;
     let col_widths = vec![col_width; col_count];
 
     let mut builder = TableBuilder::new(col_widths);
diff --git a/src/helpers/tables.rs b/src/helpers/tables.rs
index b1f43c8..006707c 100644
--- a/src/helpers/tables.rs
+++ b/src/helpers/tables.rs
@@ -13,7 +13,7 @@ use crate::generator::{TableBuilder, TableCell, TableRow};
 /// let table = simple_table(3, 4); // 3 rows, 4 columns with equal widths
 /// ```
 pub fn simple_table(rows: usize, cols: usize) -> TableBuilder {
-    let col_width = 9144000 / cols as u32; // Divide slide width equally
+    let col_width = 9144000 / cols.max(1) as u32; // Divide slide width equally
     let column_widths = vec![col_width; cols];
     let mut builder = TableBuilder::new(column_widths);
 
@@ -64,7 +64,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
     let widths = if let Some(widths) = column_widths {
         widths.iter().map(|w| (w * 914400.0) as u32).collect()
     } else {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         vec![col_width; cols]
     };
 
@@ -89,7 +89,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
 /// ```
 pub fn table_with_header(headers: &[&str], data_rows: usize) -> TableBuilder {
     let cols = headers.len();
-    let col_width = 9144000 / cols as u32;
+    let col_width = 9144000 / cols.max(1) as u32;
     let column_widths = vec![col_width; cols];
 
     let mut builder = TableBuilder::new(column_widths);
@@ -124,7 +124,7 @@ pub struct QuickTable {
 impl QuickTable {
     /// Create a new quick table with equal column widths
     pub fn new(cols: usize) -> Self {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         let column_widths = vec![col_width; cols];
         Self {
             builder: TableBuilder::new(column_widths),
-- 
2.43.0


From d1753e47d34c282d7660e0dfe1cb15a39290cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 29/81] fix: give every table row as many cells as the grid has
 columns

---
 src/generator/table/xml.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/generator/table/xml.rs b/src/generator/table/xml.rs
index 66f08ee..5477b89 100644
--- a/src/generator/table/xml.rs
+++ b/src/generator/table/xml.rs
@@ -1,10 +1,14 @@
 //! XML generation for tables in PPTX format
 
 use super::builder::Table;
+use super::cell::TableCell;
 use super::format::generate_cell_xml;
 use super::row::TableRow;
 use crate::core::XmlWriter;
 
+/// Width of columns a table has cells but no width for (2 inches).
+const DEFAULT_COLUMN_WIDTH: u32 = 1_828_800;
+
 /// Generate table XML for a slide
 pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     let x = table.x.to_string();
@@ -30,7 +34,21 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     writer.empty_element("a:ext", &[("cx", &width), ("cy", &height)]);
     writer.raw("</p:xfrm><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><a:tbl><a:tblPr firstRow=\"1\" bandRow=\"1\"/><a:tblGrid>");
 
-    for (col_idx, col_width) in table.column_widths.iter().enumerate() {
+    // Every row has to fill the grid: widen the grid to the longest row, pad shorter rows.
+    let columns = table
+        .rows
+        .iter()
+        .map(|row| row.cells.len())
+        .fold(table.column_widths.len(), usize::max);
+    let last_width = table.column_widths.last().copied().unwrap_or(DEFAULT_COLUMN_WIDTH);
+    let widths = table
+        .column_widths
+        .iter()
+        .copied()
+        .chain(std::iter::repeat(last_width))
+        .take(columns);
+
+    for (col_idx, col_width) in widths.enumerate() {
         let col_id = 20_000 + col_idx;
         writer.raw(&format!(
             r#"<a:gridCol w="{col_width}"><a:extLst><a:ext uri="{{9D8B030D-6E8A-4147-A177-3AD203B41FA5}}"><a16:colId xmlns:a16="http://schemas.microsoft.com/office/drawing/2014/main" val="{col_id}"/></a:ext></a:extLst></a:gridCol>"#
@@ -40,7 +58,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     writer.raw("</a:tblGrid>");
 
     for (row_idx, row) in table.rows.iter().enumerate() {
-        writer.raw(&generate_row_xml(row, row_idx));
+        writer.raw(&generate_row_xml(row, row_idx, columns));
     }
 
     writer.raw("</a:tbl></a:graphicData></a:graphic>");
@@ -49,7 +67,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
 }
 
 /// Generate row XML
-fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
+fn generate_row_xml(row: &TableRow, row_idx: usize, columns: usize) -> String {
     let height = row.height.unwrap_or(400000).to_string();
     let row_id = 10_000 + row_idx;
     let mut writer = XmlWriter::with_capacity(512);
@@ -58,6 +76,9 @@ fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
     for cell in &row.cells {
         writer.raw(&generate_cell_xml(cell));
     }
+    for _ in row.cells.len()..columns {
+        writer.raw(&generate_cell_xml(&TableCell::new("")));
+    }
 
     writer.raw(&format!(
         r#"<a:extLst><a:ext uri="{{0D108BD9-81ED-4DB2-BD59-A6C34878D82A}}"><a16:rowId xmlns:a16="http://schemas.microsoft.com/office/drawing/2014/main" val="{row_id}"/></a:ext></a:extLst>"#
-- 
2.43.0


From c42d5571208833162ff6cfdf5949d3e26ddb9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:05 +0000
Subject: [PATCH 30/81] fix: reject XML that is not well formed instead of only
 blank XML

---
 src/core/validation.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..5bce66f 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -2,6 +2,7 @@
 
 use crate::exc::{messages, PptxError, Result};
 use std::collections::HashSet;
+use xml::reader::EventReader;
 
 /// A required PPTX package part and its human-readable description.
 pub type RequiredPart = (&'static str, &'static str);
@@ -98,33 +99,16 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
+    for event in EventReader::from_str(trimmed) {
+        if let Err(e) = event {
+            return Err(PptxError::InvalidXml(e.to_string()));
         }
     }
 
-- 
2.43.0


From 80ae6755ebd438c79c914691c051e25e36e198e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:03 +0000
Subject: [PATCH 31/81] fix: write package parts in a fixed order, content
 types first

---
 src/opc/package.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opc/package.rs b/src/opc/package.rs
index 853766f..8c57240 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -56,7 +56,10 @@ impl Package {
     pub fn save_writer<W: std::io::Write + std::io::Seek>(&self, writer: W) -> Result<()> {
         let mut archive = zip::ZipWriter::new(writer);
 
-        for (path, content) in &self.parts {
+        // The content types first, as readers of streams expect, the rest by name.
+        let mut parts: Vec<(&String, &Vec<u8>)> = self.parts.iter().collect();
+        parts.sort_by_key(|(path, _)| (path.as_str() != "[Content_Types].xml", path.as_str()));
+        for (path, content) in parts {
             let options = zip::write::FileOptions::default();
             archive.start_file(path, options)?;
             std::io::Write::write_all(&mut archive, content)?;
-- 
2.43.0


From 2d0c98a7c6aa6eb5d10c7e49081b571f4b7ca6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:28 +0000
Subject: [PATCH 32/81] fix: compress decks without losing used media, text or
 relationships

---
 src/opc/compress.rs | 259 +++++++++++++++++++++++++-------------------
 src/oxml/editor.rs  | 109 ++++++++++---------
 2 files changed, 205 insertions(+), 163 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..756e2ad 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -8,7 +8,13 @@
 
 use super::Package;
 use crate::exc::Result;
+use crate::oxml::editor::{
+    folder, package_content_types, package_rels, part_of_rels, rels_path,
+    write_package_content_types, write_package_rels, Rel,
+};
+use crate::oxml::presentation::resolve_target;
 use std::collections::HashSet;
+use std::io::Cursor;
 use std::path::Path;
 
 /// Compression level options
@@ -204,10 +210,21 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     output_path: Q,
     options: &CompressionOptions,
 ) -> Result<CompressionResult> {
+    let data = std::fs::read(input_path.as_ref())?;
+    let (output, result) = compress_pptx_in_memory(&data, options)?;
+    std::fs::write(output_path.as_ref(), output)?;
+    Ok(result)
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
     // Load package
-    let mut package = Package::open(input_path.as_ref())?;
+    let mut package = Package::open_reader(Cursor::new(data))?;
 
-    let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
+    let original_size = data.len();
 
     let mut unused_media_removed = 0;
     let images_compressed = 0;
@@ -227,53 +244,39 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
         remove_notes_slides(&mut package)?;
     }
 
+    // Remove comments if requested
+    if options.remove_comments {
+        remove_comment_parts(&mut package);
+    }
+
     // Optimize XML
     if options.optimize_xml {
         optimize_xml_content(&mut package)?;
     }
 
     // Save compressed package
-    package.save(output_path.as_ref())?;
+    let mut output = Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output = output.into_inner();
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+    let compressed_size = output.len();
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0
     } else {
         0.0
     };
 
     let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
 
-    Ok(CompressionResult {
+    let result = CompressionResult {
         original_size,
         compressed_size,
         reduction_percent,
         unused_media_removed,
         images_compressed,
         target_achieved,
-    })
-}
-
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
-
-    Ok((output_data, result))
+    };
+    Ok((output, result))
 }
 
 /// Remove unused media files from package
@@ -285,68 +288,93 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
         .map(|s| s.to_string())
         .collect();
 
-    let mut referenced = HashSet::new();
-    let mut removed = 0;
-
-    // Find all media references in slide files
-    for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
-                }
+    let unused: Vec<String> = {
+        let referenced = related_parts(package, |_| true);
+        media_paths.into_iter().filter(|p| !referenced.contains(p)).collect()
+    };
+
+    remove_parts(package, &unused);
+    Ok(unused.len())
+}
+
+/// Parts that are the target of a relationship `wanted` accepts
+fn related_parts(package: &Package, wanted: impl Fn(&Rel) -> bool) -> HashSet<String> {
+    let mut targets = HashSet::new();
+    for source in package.part_paths().into_iter().filter_map(part_of_rels) {
+        for rel in package_rels(package, &source) {
+            if !rel.external && wanted(&rel) {
+                targets.insert(resolve_target(folder(&source), &rel.target));
             }
+        }
+    }
+    targets
+}
+
+/// Remove parts together with their relationships, content types and the relationships to them
+fn remove_parts(package: &mut Package, paths: &[String]) {
+    let removed: HashSet<&str> = paths
+        .iter()
+        .filter(|path| package.has_part(path))
+        .map(|path| path.as_str())
+        .collect();
+    if removed.is_empty() {
+        return;
+    }
+    for path in &removed {
+        package.remove_part(path);
+        package.remove_part(&rels_path(path));
     }
 
-    // Remove unreferenced media
-    for media_path in media_paths {
-        if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
-            removed += 1;
+    let sources: Vec<String> = package.part_paths().into_iter().filter_map(part_of_rels).collect();
+    for source in sources {
+        let mut rels = package_rels(package, &source);
+        let before = rels.len();
+        rels.retain(|r| r.external || !removed.contains(resolve_target(folder(&source), &r.target).as_str()));
+        if rels.len() != before {
+            write_package_rels(package, &source, &rels);
         }
     }
 
-    Ok(removed)
+    let (defaults, mut overrides) = package_content_types(package);
+    let before = overrides.len();
+    overrides.retain(|(part, _)| !removed.contains(part.trim_start_matches('/')));
+    if overrides.len() != before {
+        write_package_content_types(package, &defaults, &overrides);
+    }
 }
 
 /// Remove document properties
 fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let paths = [
+        // Core properties
+        "docProps/core.xml",
+        // App properties
+        "docProps/app.xml",
+        // Custom properties
+        "docProps/custom.xml",
+        // Thumbnail
+        "docProps/thumbnail.jpeg",
+    ];
+    remove_parts(package, &paths.map(str::to_string));
 }
 
 /// Remove notes slides
 fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
-        .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
-        .map(|s| s.to_string())
-        .collect();
-
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
-    }
-
+    let notes_paths: Vec<String> = related_parts(package, |r| r.is("notesSlide")).into_iter().collect();
+    remove_parts(package, &notes_paths);
     Ok(())
 }
 
+/// Remove comments and the list of their authors
+fn remove_comment_parts(package: &mut Package) {
+    let paths: Vec<String> = related_parts(package, |r| {
+        r.is("comments") || r.is("commentAuthors") || r.is("authors")
+    })
+    .into_iter()
+    .collect();
+    remove_parts(package, &paths);
+}
+
 /// Optimize XML content (minimize whitespace)
 fn optimize_xml_content(package: &mut Package) -> Result<()> {
     let xml_paths: Vec<String> = package
@@ -357,8 +385,8 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        if let Some(content) = package.get_part(&path).and_then(|c| std::str::from_utf8(c).ok()) {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
@@ -366,52 +394,55 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
     Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the white space between tags. The text of elements is left as it is.
 fn minimize_xml(xml: &str) -> String {
+    if xml.contains("xml:space") || xml.contains("<!DOCTYPE") {
+        return xml.to_string();
+    }
     let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
-            }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
-            }
-            _ => {
-                result.push(ch);
-            }
+    let mut rest = xml;
+    // Whether the last markup was a start tag: white space up to its end tag is its text.
+    let mut after_start = false;
+
+    while let Some(open) = rest.find('<') {
+        let (text, markup) = rest.split_at(open);
+        let is_end = markup.starts_with("</");
+        let layout = text.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r'));
+        if !layout || (after_start && (is_end || markup.starts_with("<!"))) {
+            result.push_str(text);
         }
-        prev_char = ch;
+        let len = markup_len(markup);
+        result.push_str(&markup[..len]);
+        if !markup.starts_with("<?") && !markup.starts_with("<!") {
+            after_start = !is_end && !markup[..len].ends_with("/>");
+        }
+        rest = &markup[len..];
     }
+    result.push_str(rest.trim_end());
 
     result
 }
 
+/// Length of the tag, comment, instruction or CDATA section `xml` starts with
+fn markup_len(xml: &str) -> usize {
+    for (open, close) in [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")] {
+        if xml.starts_with(open) {
+            return xml.find(close).map_or(xml.len(), |p| p + close.len());
+        }
+    }
+    let mut quote = None;
+    for (i, c) in xml.char_indices() {
+        match quote {
+            Some(q) if c == q => quote = None,
+            Some(_) => {}
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None if c == '>' => return i + 1,
+            None => {}
+        }
+    }
+    xml.len()
+}
+
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let package = Package::open(path.as_ref())?;
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index f1fe17f..f6bfc51 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -38,15 +38,15 @@ struct SlideRef {
 
 /// A relationship of a part.
 #[derive(Clone)]
-struct Rel {
-    id: String,
-    rel_type: String,
-    target: String,
-    external: bool,
+pub(crate) struct Rel {
+    pub(crate) id: String,
+    pub(crate) rel_type: String,
+    pub(crate) target: String,
+    pub(crate) external: bool,
 }
 
 impl Rel {
-    fn is(&self, kind: &str) -> bool {
+    pub(crate) fn is(&self, kind: &str) -> bool {
         self.rel_type.rsplit('/').next() == Some(kind)
     }
 }
@@ -492,22 +492,7 @@ impl PresentationEditor {
     }
 
     fn set_rels(&mut self, path: &str, rels: &[Rel]) {
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">"#,
-        );
-        for r in rels {
-            let mode = if r.external { r#" TargetMode="External""# } else { "" };
-            xml.push_str(&format!(
-                "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>",
-                escape_xml(&r.id),
-                escape_xml(&r.rel_type),
-                escape_xml(&r.target),
-                mode
-            ));
-        }
-        xml.push_str("\n</Relationships>");
-        self.package.add_part(rels_path(path), xml.into_bytes());
+        write_package_rels(&mut self.package, path, rels);
     }
 
     /// Relate `path` to `target` and return the new relationship id.
@@ -537,25 +522,7 @@ impl PresentationEditor {
         defaults: &[(String, String)],
         overrides: &[(String, String)],
     ) {
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">"#,
-        );
-        for (name, attr, list) in [
-            ("Default", "Extension", defaults),
-            ("Override", "PartName", overrides),
-        ] {
-            for (key, value) in list {
-                xml.push_str(&format!(
-                    "\n<{name} {attr}=\"{}\" ContentType=\"{}\"/>",
-                    escape_xml(key),
-                    escape_xml(value)
-                ));
-            }
-        }
-        xml.push_str("\n</Types>");
-        self.package
-            .add_part(CONTENT_TYPES.to_string(), xml.into_bytes());
+        write_package_content_types(&mut self.package, defaults, overrides);
     }
 
     fn set_content_type(&mut self, path: &str, content_type: &str) {
@@ -575,16 +542,16 @@ impl PresentationEditor {
     }
 }
 
-fn folder(path: &str) -> &str {
+pub(crate) fn folder(path: &str) -> &str {
     path.rsplit_once('/').map_or("", |(dir, _)| dir)
 }
 
-fn extension(path: &str) -> String {
+pub(crate) fn extension(path: &str) -> String {
     path.rsplit_once('.').map_or(String::new(), |(_, e)| e.to_ascii_lowercase())
 }
 
 /// Relationship part of a part: `a/b.xml` -> `a/_rels/b.xml.rels`.
-fn rels_path(path: &str) -> String {
+pub(crate) fn rels_path(path: &str) -> String {
     match path.rsplit_once('/') {
         Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
         None => format!("_rels/{path}.rels"),
@@ -592,7 +559,7 @@ fn rels_path(path: &str) -> String {
 }
 
 /// Inverse of [`rels_path`]; `None` when `path` is not a relationship part.
-fn part_of_rels(path: &str) -> Option<String> {
+pub(crate) fn part_of_rels(path: &str) -> Option<String> {
     let (dir, name) = path.rsplit_once('/')?;
     let name = name.strip_suffix(".rels")?;
     if dir == "_rels" {
@@ -602,7 +569,7 @@ fn part_of_rels(path: &str) -> Option<String> {
 }
 
 /// Target of a relationship from a part in folder `base` to the part `path`.
-fn relative_target(base: &str, path: &str) -> String {
+pub(crate) fn relative_target(base: &str, path: &str) -> String {
     let from: Vec<&str> = base.split('/').filter(|s| !s.is_empty()).collect();
     let to: Vec<&str> = path.split('/').collect();
     let shared = from.iter().zip(&to[..to.len() - 1]).take_while(|(a, b)| a == b).count();
@@ -611,7 +578,7 @@ fn relative_target(base: &str, path: &str) -> String {
     parts.join("/")
 }
 
-fn package_rels(package: &Package, path: &str) -> Vec<Rel> {
+pub(crate) fn package_rels(package: &Package, path: &str) -> Vec<Rel> {
     package
         .get_part_string(&rels_path(path))
         .and_then(|xml| XmlParser::parse_str(&xml).ok())
@@ -631,7 +598,26 @@ fn package_rels(package: &Package, path: &str) -> Vec<Rel> {
         .unwrap_or_default()
 }
 
-fn package_content_types(package: &Package) -> (Vec<(String, String)>, Vec<(String, String)>) {
+pub(crate) fn write_package_rels(package: &mut Package, path: &str, rels: &[Rel]) {
+    let mut xml = String::from(
+        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">"#,
+    );
+    for r in rels {
+        let mode = if r.external { r#" TargetMode="External""# } else { "" };
+        xml.push_str(&format!(
+            "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>",
+            escape_xml(&r.id),
+            escape_xml(&r.rel_type),
+            escape_xml(&r.target),
+            mode
+        ));
+    }
+    xml.push_str("\n</Relationships>");
+    package.add_part(rels_path(path), xml.into_bytes());
+}
+
+pub(crate) fn package_content_types(package: &Package) -> (Vec<(String, String)>, Vec<(String, String)>) {
     let root = package
         .get_part_string(CONTENT_TYPES)
         .and_then(|xml| XmlParser::parse_str(&xml).ok());
@@ -650,7 +636,32 @@ fn package_content_types(package: &Package) -> (Vec<(String, String)>, Vec<(Stri
     (list("Default", "Extension"), list("Override", "PartName"))
 }
 
-fn content_type_of(package: &Package, path: &str) -> Option<String> {
+pub(crate) fn write_package_content_types(
+    package: &mut Package,
+    defaults: &[(String, String)],
+    overrides: &[(String, String)],
+) {
+    let mut xml = String::from(
+        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">"#,
+    );
+    for (name, attr, list) in [
+        ("Default", "Extension", defaults),
+        ("Override", "PartName", overrides),
+    ] {
+        for (key, value) in list {
+            xml.push_str(&format!(
+                "\n<{name} {attr}=\"{}\" ContentType=\"{}\"/>",
+                escape_xml(key),
+                escape_xml(value)
+            ));
+        }
+    }
+    xml.push_str("\n</Types>");
+    package.add_part(CONTENT_TYPES.to_string(), xml.into_bytes());
+}
+
+pub(crate) fn content_type_of(package: &Package, path: &str) -> Option<String> {
     let (defaults, overrides) = package_content_types(package);
     let name = format!("/{path}");
     let ext = extension(path);
-- 
2.43.0


From 3f40a9ede7d868d53f020148d0c67a142900218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:51 +0000
Subject: [PATCH 33/81] fix: find and repair damage in packages whatever their
 layout, and say so only when it is repaired

---
 src/opc/compress.rs |   2 +-
 src/oxml/repair.rs  | 951 +++++++++++++++++++++++++++++---------------
 2 files changed, 642 insertions(+), 311 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 756e2ad..07afd8e 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -424,7 +424,7 @@ fn minimize_xml(xml: &str) -> String {
 }
 
 /// Length of the tag, comment, instruction or CDATA section `xml` starts with
-fn markup_len(xml: &str) -> usize {
+pub(crate) fn markup_len(xml: &str) -> usize {
     for (open, close) in [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")] {
         if xml.starts_with(open) {
             return xml.find(close).map_or(xml.len(), |p| p + close.len());
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..b9796c7 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -11,10 +11,24 @@ use crate::core::{
     check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
+use super::editor::{
+    content_type_of, extension, folder, package_content_types, package_rels, part_of_rels,
+    relative_target, rels_path, write_package_content_types, write_package_rels, Rel,
+};
+use super::presentation::resolve_target;
+use super::xmlchemy::XmlParser;
 use crate::exc::{PptxError, Result};
+use crate::opc::compress::markup_len;
 use crate::opc::Package;
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::path::Path;
+use xml::reader::{EventReader, XmlEvent};
+
+const PRESENTATION: &str = "ppt/presentation.xml";
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const REL_BASE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+const REL_NAMESPACES: [&str; 2] =
+    [REL_BASE, "http://purl.oclc.org/ooxml/officeDocument/relationships"];
 
 /// Types of issues that can be detected in a PPTX file
 #[derive(Debug, Clone, PartialEq)]
@@ -220,21 +234,33 @@ impl PptxRepair {
             return result;
         }
 
-        // Attempt to repair each issue
-        for issue in &result.issues_found.clone() {
-            if issue.is_repairable() {
-                match self.repair_issue(issue) {
-                    Ok(()) => result.issues_repaired.push(issue.clone()),
-                    Err(_) => result.issues_unrepaired.push(issue.clone()),
+        // Attempt to repair each issue, and those that show only once another is repaired
+        let mut pending = result.issues_found.clone();
+        for _ in 0..5 {
+            for issue in &pending {
+                let repaired = issue.is_repairable() && self.repair_issue(issue).is_ok();
+                if repaired {
+                    result.issues_repaired.push(issue.clone());
+                } else {
+                    result.issues_unrepaired.push(issue.clone());
                 }
-            } else {
-                result.issues_unrepaired.push(issue.clone());
             }
+            pending = self.validate();
+            pending.retain(|issue| !result.issues_found.contains(issue));
+            if pending.is_empty() {
+                break;
+            }
+            result.issues_found.extend(pending.iter().cloned());
         }
 
         // Re-validate to check if repairs were successful
         let remaining_issues = self.validate();
         result.is_valid = remaining_issues.is_empty();
+        let (failed, repaired) = std::mem::take(&mut result.issues_repaired)
+            .into_iter()
+            .partition(|issue| remaining_issues.contains(issue));
+        result.issues_repaired = repaired;
+        result.issues_unrepaired.extend::<Vec<RepairIssue>>(failed);
 
         result
     }
@@ -278,77 +304,118 @@ impl PptxRepair {
     }
 
     fn check_xml_validity(&mut self) {
-        let xml_parts: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.ends_with(".xml") || p.ends_with(".rels"))
-            .map(|s| s.to_string())
-            .collect();
-
-        for path in xml_parts {
-            if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
-                    self.issues.push(RepairIssue::InvalidXml { path, error: e });
-                }
+        for path in self.sorted_paths() {
+            if !(path.ends_with(".xml") || path.ends_with(".rels")) {
+                continue;
+            }
+            let Some(content) = self.package.get_part(&path) else {
+                continue;
+            };
+            let verdict = match std::str::from_utf8(content) {
+                Ok(xml) => self.validate_xml(xml),
+                // Another encoding, named by a byte order mark or the declaration
+                Err(_) => XmlParser::parse(content).map(|_| ()).map_err(|e| e.to_string()),
+            };
+            if let Err(error) = verdict {
+                self.issues.push(RepairIssue::InvalidXml { path, error });
             }
         }
     }
 
+    fn sorted_paths(&self) -> Vec<String> {
+        let mut paths: Vec<String> =
+            self.package.part_paths().into_iter().map(str::to_string).collect();
+        paths.sort();
+        paths
+    }
+
     fn validate_xml(&self, xml: &str) -> std::result::Result<(), String> {
         validate_well_formed_xml(xml).map_err(|e| e.to_string())
     }
 
     fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
+        for path in self.sorted_paths() {
+            if part_of_rels(&path).is_some() {
+                self.check_rels_file(&path);
+            }
+            if path.ends_with(".xml") {
+                self.check_references(&path);
+            }
+        }
+    }
 
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
-            .map(|s| s.to_string())
-            .collect();
+    /// Check that the relationships of a part lead to parts
+    fn check_rels_file(&mut self, rels_path: &str) {
+        let source = part_of_rels(rels_path).unwrap_or_default();
+        for rel in package_rels(&self.package, &source) {
+            // Skip external relationships
+            if rel.external || rel.target.starts_with("http://") || rel.target.starts_with("https://") {
+                continue;
+            }
+            let target = rel.target.split('#').next().unwrap_or_default();
+            if target.is_empty() {
+                continue;
+            }
+            let full_path = self.resolve_path(rels_path, target);
+            if !self.package.has_part(&full_path) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target: full_path,
+                    rel_id: rel.id,
+                });
+            }
+        }
+    }
 
-        for rels_path in slide_rels {
-            self.check_rels_file(&rels_path);
+    /// Check that the relationships a part refers to exist
+    fn check_references(&mut self, path: &str) {
+        let used = self.references(path);
+        if used.is_empty() || self.is_broken(&rels_path(path)) {
+            return;
+        }
+        let rels = package_rels(&self.package, path);
+        for rel_id in used {
+            if !rels.iter().any(|r| r.id == rel_id) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path(path),
+                    target: String::new(),
+                    rel_id,
+                });
+            }
         }
     }
 
-    fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
-
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+    /// Whether a part is there and cannot be read as XML
+    fn is_broken(&self, path: &str) -> bool {
+        self.package
+            .get_part(path)
+            .is_some_and(|content| XmlParser::parse(content).is_err())
+    }
+
+    /// Relationship ids an XML part refers to
+    fn references(&self, path: &str) -> BTreeSet<String> {
+        let mut used = BTreeSet::new();
+        let Some(content) = self.package.get_part(path) else {
+            return used;
+        };
+        for event in EventReader::new(content) {
+            match event {
+                Ok(XmlEvent::StartElement { attributes, .. }) => {
+                    used.extend(
+                        attributes
+                            .into_iter()
+                            .filter(|a| {
+                                !a.value.is_empty()
+                                    && a.name.namespace.as_deref().is_some_and(|ns| REL_NAMESPACES.contains(&ns))
+                            })
+                            .map(|a| a.value),
+                    );
+                }
+                Err(_) => return BTreeSet::new(),
+                _ => {}
             }
         }
+        used
     }
 
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
@@ -367,101 +434,70 @@ impl PptxRepair {
             return stripped.to_string();
         }
 
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+        let source = part_of_rels(rels_path).unwrap_or_default();
+        resolve_target(folder(&source), target)
     }
 
     fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
-            }
-        }
-
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .map(|s| s.to_string())
-            .collect();
-
         // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
-                self.issues.push(RepairIssue::OrphanSlide {
-                    slide_path: slide.clone(),
-                });
+        for rel in package_rels(&self.package, PRESENTATION) {
+            let path = resolve_target("ppt", &rel.target);
+            if rel.is("slide") && !rel.external && !self.package.has_part(&path) {
+                self.issues.push(RepairIssue::OrphanSlide { slide_path: path });
             }
         }
 
         // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
-                });
+        let referenced = self.referenced_slides();
+        for path in self.slide_parts() {
+            if !referenced.contains(&path) {
+                self.issues.push(RepairIssue::MissingSlideReference { slide_path: path });
             }
         }
     }
 
-    fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
+    /// Slides the slide list of the presentation leads to
+    fn referenced_slides(&self) -> HashSet<String> {
+        let listed = self.references(PRESENTATION);
+        package_rels(&self.package, PRESENTATION)
+            .into_iter()
+            .filter(|r| r.is("slide") && !r.external && listed.contains(&r.id))
+            .map(|r| resolve_target("ppt", &r.target))
+            .collect()
+    }
 
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+    /// Slide parts of the package, by number
+    fn slide_parts(&self) -> Vec<String> {
+        let slide_type = "application/vnd.openxmlformats-officedocument.presentationml.slide+xml";
+        let (_, overrides) = package_content_types(&self.package);
+        let mut paths: Vec<String> = self.sorted_paths();
+        paths.retain(|p| {
+            let name = format!("/{p}");
+            match overrides.iter().find(|(part, _)| *part == name) {
+                Some((_, content_type)) => content_type == slide_type,
+                None => folder(p) == "ppt/slides" && p.ends_with(".xml"),
+            }
+        });
+        paths.sort_by_key(|p| part_number(p));
+        paths
+    }
 
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
-                }
+    fn check_content_types(&mut self) {
+        if !self.package.has_part(CONTENT_TYPES) || self.is_broken(CONTENT_TYPES) {
+            return;
+        }
+        for path in self.sorted_paths() {
+            if path == CONTENT_TYPES {
+                continue;
+            }
+            // A part named only as some XML is not recognized
+            let valid = match content_type_of(&self.package, &path).as_deref() {
+                None => false,
+                Some("application/xml") => self.infer_content_type(&path) == "application/xml",
+                Some(_) => true,
+            };
+            if !valid {
+                self.issues.push(RepairIssue::InvalidContentType { path });
             }
         }
     }
@@ -517,12 +553,19 @@ impl PptxRepair {
         if let Some(content) = self.package.get_part(path) {
             let xml_str = String::from_utf8_lossy(content).to_string();
 
-            // Try to repair using anyrepair for JSON-like structures
-            // For XML, we try basic fixes
             let repaired = self.attempt_xml_repair(&xml_str);
 
-            self.package
-                .add_part(path.to_string(), repaired.into_bytes());
+            if self.validate_xml(&repaired).is_ok() {
+                self.package
+                    .add_part(path.to_string(), repaired.into_bytes());
+            } else {
+                // Parts that can be made anew
+                self.package.remove_part(path);
+                if let Err(e) = self.repair_missing_part(path) {
+                    self.package.add_part(path.to_string(), xml_str.into_bytes());
+                    return Err(e);
+                }
+            }
         }
         Ok(())
     }
@@ -553,6 +596,7 @@ impl PptxRepair {
                 while let Some(&next) = chars.peek() {
                     if next == ';' {
                         entity.push(chars.next().unwrap());
+                        temp_chars.push(';');
                         is_entity = entity == "&amp;"
                             || entity == "&lt;"
                             || entity == "&gt;"
@@ -594,89 +638,163 @@ impl PptxRepair {
         _target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+        let part = part_of_rels(source).unwrap_or_default();
+        let mut rels = package_rels(&self.package, &part);
+        let before = rels.len();
+        rels.retain(|r| {
+            r.id != rel_id || r.external || self.package.has_part(&self.resolve_path(source, &r.target))
+        });
+        if rels.len() != before {
+            write_package_rels(&mut self.package, &part, &rels);
+        }
+        if !rels.iter().any(|r| r.id == rel_id) {
+            self.remove_references(&part, rel_id);
         }
         Ok(())
     }
 
+    /// Take the references to a relationship that does not exist out of a part
+    fn remove_references(&mut self, path: &str, rel_id: &str) {
+        let Some(mut xml) = self.package.get_part_string(path) else {
+            return;
+        };
+        if self.is_broken(path) {
+            return;
+        }
+        let prefixes: Vec<String> = REL_NAMESPACES
+            .iter()
+            .flat_map(|ns| {
+                let needle = format!("=\"{ns}\"");
+                xml.match_indices(&needle)
+                    .filter_map(|(at, _)| xml[..at].rsplit("xmlns:").next().map(str::to_string))
+                    .collect::<Vec<_>>()
+            })
+            .collect();
+        let value = format!("=\"{}\"", crate::core::escape_xml(rel_id));
+        loop {
+            let tags = Tag::all(&xml);
+            let found = tags.iter().enumerate().find_map(|(i, tag)| {
+                let text = &xml[tag.start..tag.end];
+                let at = text.match_indices(&value).map(|(at, _)| at).find(|at| {
+                    let name = text[..*at].rsplit(|c: char| c.is_whitespace()).next().unwrap_or("");
+                    name.split_once(':').is_some_and(|(prefix, _)| prefixes.iter().any(|p| p == prefix))
+                })?;
+                Some((i, at))
+            });
+            let Some((i, at)) = found else {
+                break;
+            };
+            let tag = &tags[i];
+            let whole = match tag.local.as_str() {
+                "chart" | "relIds" => Tag::enclosing(&tags, i, "graphicFrame").unwrap_or(i),
+                _ => i,
+            };
+            let cut = match tag.local.as_str() {
+                "chart" | "relIds" | "sldId" | "sldMasterId" | "sldLayoutId" | "notesMasterId"
+                | "handoutMasterId" | "sld" | "contentPart" | "externalData" | "userShapes" | "tags"
+                | "custData" | "videoFile" | "audioFile" | "wavAudioFile" | "snd" | "regular" | "bold"
+                | "italic" | "boldItalic" => tags[whole].start..Tag::element_end(&tags, whole),
+                // Only the attribute, with the space in front of it
+                _ => {
+                    let text = &xml[tag.start..tag.start + at];
+                    let name = text.rfind(char::is_whitespace).unwrap_or(0);
+                    tag.start + name..tag.start + at + value.len()
+                }
+            };
+            let slide_id = (tag.local == "sldId")
+                .then(|| self.extract_attribute(&xml[tag.start..tag.end], " id"))
+                .flatten();
+            xml.replace_range(cut, "");
+            // Sections list the slide by its id
+            if let Some(id) = slide_id {
+                let entry = format!(" id=\"{id}\"");
+                while let Some(range) = {
+                    let tags = Tag::all(&xml);
+                    tags.iter()
+                        .position(|t| t.local == "sldId" && xml[t.start..t.end].contains(&entry))
+                        .map(|i| tags[i].start..Tag::element_end(&tags, i))
+                } {
+                    xml.replace_range(range, "");
+                }
+            }
+        }
+        self.package.add_part(path.to_string(), xml.into_bytes());
+    }
+
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
+        if self.referenced_slides().contains(slide_path) {
+            return Ok(());
+        }
         // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
-
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
-
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        let mut rels = package_rels(&self.package, PRESENTATION);
+        let known = rels
+            .iter()
+            .find(|r| r.is("slide") && !r.external && resolve_target("ppt", &r.target) == slide_path)
+            .map(|r| r.id.clone());
+        let rel_id = match known {
+            Some(id) => id,
+            None => {
+                // Find the highest rId
+                let xml = self.package.get_part_string(&rels_path(PRESENTATION)).unwrap_or_default();
+                let id = format!("rId{}", self.find_max_rel_id(&xml).saturating_add(1));
+                rels.push(Rel {
+                    id: id.clone(),
+                    rel_type: format!("{REL_BASE}/slide"),
+                    target: relative_target("ppt", slide_path),
+                    external: false,
+                });
+                write_package_rels(&mut self.package, PRESENTATION, &rels);
+                id
+            }
+        };
 
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
-        }
-        Ok(())
+        // Also update presentation.xml sldIdLst
+        self.add_slide_to_presentation(&rel_id)
     }
 
     fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
-
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
-
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
-                )
-            };
-
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
+        let xml = self
+            .package
+            .get_part_string(PRESENTATION)
+            .filter(|xml| self.validate_xml(xml).is_ok())
+            .ok_or_else(|| PptxError::InvalidXml(PRESENTATION.to_string()))?;
+
+        // Ids of slides start at 256
+        let id = self.find_max_slide_id(&xml).max(255) + 1;
+        let tags = Tag::all(&xml);
+        let root = tags
+            .first()
+            .ok_or_else(|| PptxError::InvalidXml(PRESENTATION.to_string()))?;
+        let p = if root.prefix.is_empty() { String::new() } else { format!("{}:", root.prefix) };
+        let entry = format!(
+            "<{p}sldId xmlns:r=\"{REL_BASE}\" id=\"{id}\" r:id=\"{}\"/>",
+            crate::core::escape_xml(rel_id)
+        );
+        // The main slide list, not the one of an extension
+        let list = tags.iter().position(|t| t.local == "sldIdLst" && t.prefix == root.prefix);
+        let mut updated = xml.clone();
+        match list {
+            Some(i) if tags[i].empty => {
+                updated.replace_range(
+                    tags[i].start..tags[i].end,
+                    &format!("<{p}sldIdLst>{entry}</{p}sldIdLst>"),
+                );
+            }
+            Some(i) => {
+                let end = Tag::element_end(&tags, i);
+                let close = xml[..end].rfind("</").unwrap_or(end);
+                updated.insert_str(close, &entry);
+            }
+            None => {
+                // Insert sldIdLst after the lists of masters
+                let at = ["handoutMasterIdLst", "notesMasterIdLst", "sldMasterIdLst"]
+                    .iter()
+                    .find_map(|name| tags.iter().position(|t| t.local == *name && !t.close))
+                    .map_or(root.end, |i| Tag::element_end(&tags, i));
+                updated.insert_str(at, &format!("<{p}sldIdLst>{entry}</{p}sldIdLst>"));
+            }
         }
+        self.package.add_part(PRESENTATION.to_string(), updated.into_bytes());
         Ok(())
     }
 
@@ -702,85 +820,94 @@ impl PptxRepair {
     }
 
     fn find_max_slide_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: <p:sldId id="(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("<p:sldId id=\"") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 13; // Skip "<p:sldId id=\""
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        Tag::all(xml)
+            .iter()
+            .filter(|t| t.local == "sldId")
+            .filter_map(|t| self.extract_attribute(&xml[t.start..t.end], " id")?.parse().ok())
+            .max()
+            .unwrap_or(0)
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        // Remove the orphan reference from presentation.xml.rels and the slide list
+        let rels_part = rels_path(PRESENTATION);
+        for rel in package_rels(&self.package, PRESENTATION) {
+            if rel.is("slide") && resolve_target("ppt", &rel.target) == slide_path {
+                self.repair_broken_relationship(&rels_part, slide_path, &rel.id)?;
+            }
         }
         Ok(())
     }
 
     fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Determine content type based on path
-            let content_type = self.infer_content_type(path);
-
-            // Add Override entry
-            let new_override = format!(
-                "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
-            );
-
-            let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
-            self.package
-                .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
+        // Determine content type based on the relationships to the part and its path
+        let content_type = self.infer_content_type(path).to_string();
+        let (mut defaults, mut overrides) = package_content_types(&self.package);
+        let ext = extension(path);
+        if ext == "xml" || ext.is_empty() || defaults.iter().any(|(e, _)| e.eq_ignore_ascii_case(&ext)) {
+            let name = format!("/{path}");
+            overrides.retain(|(part, _)| *part != name);
+            overrides.push((name, content_type));
+        } else {
+            defaults.push((ext, content_type));
         }
+        write_package_content_types(&mut self.package, &defaults, &overrides);
         Ok(())
     }
 
     fn infer_content_type(&self, path: &str) -> &'static str {
-        if path.contains("slideLayout") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
-        } else if path.contains("slideMaster") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
-        } else if path.contains("notesSlide") {
-            "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
-        } else if path.starts_with("ppt/slides/slide") && path.ends_with(".xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
-        } else if path.contains("theme") {
-            "application/vnd.openxmlformats-officedocument.theme+xml"
-        } else if path.contains("presentation.xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
-        } else if path.ends_with(".xml") {
-            "application/xml"
-        } else {
-            "application/octet-stream"
+        match extension(path).as_str() {
+            "rels" => return "application/vnd.openxmlformats-package.relationships+xml",
+            "xml" => {}
+            "png" => return "image/png",
+            "jpg" | "jpeg" => return "image/jpeg",
+            "gif" => return "image/gif",
+            "bmp" => return "image/bmp",
+            "tif" | "tiff" => return "image/tiff",
+            "svg" => return "image/svg+xml",
+            "emf" => return "image/x-emf",
+            "wmf" => return "image/x-wmf",
+            "wav" => return "audio/wav",
+            "mp3" => return "audio/mpeg",
+            "mp4" => return "video/mp4",
+            "fntdata" => return "application/x-fontdata",
+            "vml" => return "application/vnd.openxmlformats-officedocument.vmlDrawing",
+            "xlsx" => return "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet",
+            _ => return "application/octet-stream",
         }
+        // What other parts use it as
+        for source in self.sorted_paths().iter().filter_map(|p| part_of_rels(p)) {
+            for rel in package_rels(&self.package, &source) {
+                if !rel.external
+                    && resolve_target(folder(&source), &rel.target) == path
+                    && let Some(kind) = rel.rel_type.rsplit('/').next()
+                    && let Some(content_type) = content_type_of_kind(kind)
+                {
+                    return content_type;
+                }
+            }
+        }
+        let kind = match folder(path).rsplit('/').next().unwrap_or("") {
+            "slides" => "slide",
+            "slideLayouts" => "slideLayout",
+            "slideMasters" => "slideMaster",
+            "notesSlides" => "notesSlide",
+            "notesMasters" => "notesMaster",
+            "handoutMasters" => "handoutMaster",
+            "theme" => "theme",
+            "charts" => "chart",
+            _ => match path {
+                PRESENTATION => "officeDocument",
+                "ppt/presProps.xml" => "presProps",
+                "ppt/viewProps.xml" => "viewProps",
+                "ppt/tableStyles.xml" => "tableStyles",
+                "ppt/commentAuthors.xml" => "commentAuthors",
+                "docProps/core.xml" => "core-properties",
+                "docProps/app.xml" => "extended-properties",
+                _ => "",
+            },
+        };
+        content_type_of_kind(kind).unwrap_or("application/xml")
     }
 
     fn repair_missing_namespace(&mut self, path: &str, namespace: &str) -> Result<()> {
@@ -829,18 +956,28 @@ impl PptxRepair {
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
   <Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
   <Default Extension="xml" ContentType="application/xml"/>
-  <Default Extension="jpeg" ContentType="image/jpeg"/>
-  <Default Extension="png" ContentType="image/png"/>
 "#,
         );
 
+        let paths = self.sorted_paths();
+        let extensions: BTreeSet<String> = paths
+            .iter()
+            .map(|p| extension(p))
+            .filter(|e| !e.is_empty() && e != "rels" && e != "xml")
+            .collect();
+        for ext in extensions {
+            let ct = self.infer_content_type(&format!("x.{ext}"));
+            content.push_str(&format!("  <Default Extension=\"{ext}\" ContentType=\"{ct}\"/>\n"));
+        }
+
         // Add overrides for existing parts
-        for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
-                let ct = self.infer_content_type(path);
+        for path in paths {
+            if path.ends_with(".xml") && path != CONTENT_TYPES {
+                let ct = self.infer_content_type(&path);
                 content.push_str(&format!(
                     "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-                    path, ct
+                    crate::core::escape_xml(&path),
+                    ct
                 ));
             }
         }
@@ -850,35 +987,229 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let mut rels = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
   <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+"#,
+        );
+        if self.package.has_part("docProps/core.xml") {
+            rels.push_str(r#"  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
+"#);
+        }
+        if self.package.has_part("docProps/app.xml") {
+            rels.push_str(r#"  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
+"#);
+        }
+        rels.push_str("</Relationships>");
+        rels
     }
 
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
-  </p:sldMasterIdLst>
-  <p:sldIdLst/>
+        // The masters and slides it is related to
+        let rels = package_rels(&self.package, PRESENTATION);
+        let list = |list: &str, item: &str, kind: &str, first_id: Option<u32>| {
+            let mut entries = String::new();
+            for (i, rel) in rels.iter().filter(|r| r.is(kind) && !r.external).enumerate() {
+                let id = first_id.map_or(String::new(), |id| format!(" id=\"{}\"", id + i as u32));
+                entries.push_str(&format!(
+                    "\n    <p:{item}{id} r:id=\"{}\"/>",
+                    crate::core::escape_xml(&rel.id)
+                ));
+            }
+            if entries.is_empty() {
+                entries
+            } else {
+                format!("\n  <p:{list}>{entries}\n  </p:{list}>")
+            }
+        };
+        let mut masters = list("sldMasterIdLst", "sldMasterId", "slideMaster", None);
+        if rels.is_empty() {
+            masters = "\n  <p:sldMasterIdLst>\n    <p:sldMasterId r:id=\"rId1\"/>\n  </p:sldMasterIdLst>".to_string();
+        }
+        let notes = list("notesMasterIdLst", "notesMasterId", "notesMaster", None);
+        let handouts = list("handoutMasterIdLst", "handoutMasterId", "handoutMaster", None);
+        let mut slides = list("sldIdLst", "sldId", "slide", Some(256));
+        if slides.is_empty() {
+            slides = "\n  <p:sldIdLst/>".to_string();
+        }
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">{masters}{notes}{handouts}{slides}
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#
+        )
     }
 
     fn generate_presentation_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        // Keep the ids presentation.xml uses for its masters and slides
+        let xml = self.package.get_part_string(PRESENTATION).unwrap_or_default();
+        let root = XmlParser::parse_str(&xml).ok();
+        let used = |item: &str| -> Vec<String> {
+            root.as_ref()
+                .map(|r| {
+                    r.find_all_descendants(item)
+                        .into_iter()
+                        .filter_map(|e| e.relationship_id().map(str::to_string))
+                        .collect()
+                })
+                .unwrap_or_default()
+        };
+        let in_folder = |name: &str| -> Vec<String> {
+            let mut paths = self.sorted_paths();
+            paths.retain(|p| folder(p) == format!("ppt/{name}") && p.ends_with(".xml"));
+            paths.sort_by_key(|p| part_number(p));
+            paths
+        };
+        let mut entries: Vec<(String, &str, String)> = Vec::new();
+        for (item, kind, parts) in [
+            ("sldMasterId", "slideMaster", in_folder("slideMasters")),
+            ("notesMasterId", "notesMaster", in_folder("notesMasters")),
+            ("handoutMasterId", "handoutMaster", in_folder("handoutMasters")),
+            ("sldId", "slide", self.slide_parts()),
+        ] {
+            for (id, path) in used(item).into_iter().zip(parts) {
+                entries.push((id, kind, path));
+            }
+        }
+        let reserved = self.references(PRESENTATION);
+        let mut next = 1;
+        for (kind, path) in [
+            ("theme", "ppt/theme/theme1.xml"),
+            ("presProps", "ppt/presProps.xml"),
+            ("viewProps", "ppt/viewProps.xml"),
+            ("tableStyles", "ppt/tableStyles.xml"),
+            ("commentAuthors", "ppt/commentAuthors.xml"),
+        ] {
+            if self.package.has_part(path) {
+                while reserved.contains(&format!("rId{next}")) {
+                    next += 1;
+                }
+                entries.push((format!("rId{next}"), kind, path.to_string()));
+                next += 1;
+            }
+        }
+        let mut rels = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+"#,
+        );
+        for (id, kind, path) in entries {
+            rels.push_str(&format!(
+                "  <Relationship Id=\"{}\" Type=\"{REL_BASE}/{kind}\" Target=\"{}\"/>\n",
+                crate::core::escape_xml(&id),
+                crate::core::escape_xml(&relative_target("ppt", &path))
+            ));
+        }
+        rels.push_str("</Relationships>");
+        rels
+    }
+}
+
+/// Number at the end of the name of a part, then its name
+fn part_number(path: &str) -> (u64, String) {
+    let stem = path.rsplit_once('.').map_or(path, |(stem, _)| stem);
+    let digits = stem.trim_end_matches(|c: char| c.is_ascii_digit()).len();
+    (stem[digits..].parse().unwrap_or(0), path.to_string())
+}
+
+/// Content type of the XML parts that are the target of a kind of relationship
+fn content_type_of_kind(kind: &str) -> Option<&'static str> {
+    Some(match kind {
+        "officeDocument" => "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml",
+        "slide" => "application/vnd.openxmlformats-officedocument.presentationml.slide+xml",
+        "slideLayout" => "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml",
+        "slideMaster" => "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml",
+        "notesSlide" => "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml",
+        "notesMaster" => "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml",
+        "handoutMaster" => "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml",
+        "presProps" => "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml",
+        "viewProps" => "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml",
+        "tableStyles" => "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml",
+        "comments" => "application/vnd.openxmlformats-officedocument.presentationml.comments+xml",
+        "commentAuthors" => "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml",
+        "tags" => "application/vnd.openxmlformats-officedocument.presentationml.tags+xml",
+        "theme" => "application/vnd.openxmlformats-officedocument.theme+xml",
+        "themeOverride" => "application/vnd.openxmlformats-officedocument.themeOverride+xml",
+        "chart" => "application/vnd.openxmlformats-officedocument.drawingml.chart+xml",
+        "chartUserShapes" => "application/vnd.openxmlformats-officedocument.drawingml.chartshapes+xml",
+        "diagramData" => "application/vnd.openxmlformats-officedocument.drawingml.diagramData+xml",
+        "diagramLayout" => "application/vnd.openxmlformats-officedocument.drawingml.diagramLayout+xml",
+        "diagramQuickStyle" => "application/vnd.openxmlformats-officedocument.drawingml.diagramStyle+xml",
+        "diagramColors" => "application/vnd.openxmlformats-officedocument.drawingml.diagramColors+xml",
+        "core-properties" => "application/vnd.openxmlformats-package.core-properties+xml",
+        "extended-properties" => "application/vnd.openxmlformats-officedocument.extended-properties+xml",
+        "custom-properties" => "application/vnd.openxmlformats-officedocument.custom-properties+xml",
+        "customXmlProps" => "application/vnd.openxmlformats-officedocument.customXmlProperties+xml",
+        _ => return None,
+    })
+}
+
+/// A tag of a well-formed XML document and where it stands
+struct Tag {
+    start: usize,
+    end: usize,
+    prefix: String,
+    local: String,
+    close: bool,
+    empty: bool,
+}
+
+impl Tag {
+    fn all(xml: &str) -> Vec<Tag> {
+        let mut tags = Vec::new();
+        let mut pos = 0;
+        while let Some(open) = xml[pos..].find('<') {
+            let start = pos + open;
+            let end = start + markup_len(&xml[start..]);
+            let text = &xml[start..end];
+            pos = end;
+            if text.starts_with("<?") || text.starts_with("<!") {
+                continue;
+            }
+            let close = text.starts_with("</");
+            let name = text.trim_start_matches(['<', '/']);
+            let name = name
+                .split(|c: char| c.is_whitespace() || c == '/' || c == '>')
+                .next()
+                .unwrap_or_default();
+            let (prefix, local) = name.split_once(':').unwrap_or(("", name));
+            tags.push(Tag {
+                start,
+                end,
+                prefix: prefix.to_string(),
+                local: local.to_string(),
+                close,
+                empty: text.ends_with("/>"),
+            });
+        }
+        tags
+    }
+
+    /// Where the element the tag at `i` opens ends
+    fn element_end(tags: &[Tag], i: usize) -> usize {
+        let mut depth = 0usize;
+        for tag in &tags[i..] {
+            if tag.close {
+                depth = depth.saturating_sub(1);
+            } else if !tag.empty {
+                depth += 1;
+            }
+            if depth == 0 {
+                return tag.end;
+            }
+        }
+        tags.last().map_or(0, |t| t.end)
+    }
+
+    /// The innermost element called `local` around the tag at `i`
+    fn enclosing(tags: &[Tag], i: usize, local: &str) -> Option<usize> {
+        (0..i)
+            .rev()
+            .find(|&k| {
+                tags[k].local == local && !tags[k].close && Tag::element_end(tags, k) >= tags[i].end
+            })
     }
 }
 
-- 
2.43.0


From 0575e84012ed5370a368afd8a24e40525bd15f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:09 +0000
Subject: [PATCH 34/81] fix: report XML parts the package validator cannot read

---
 src/core/package_validation/context.rs | 15 ++++++++++++---
 src/core/package_validation/rules.rs   | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..b5dc483 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -81,12 +81,21 @@ impl PackageContext {
         archive: &mut ZipArchive<R>,
         path: &str,
     ) -> Option<String> {
+        self.try_read_part(archive, path).ok()
+    }
+
+    /// Text of a part, or why it cannot be read.
+    pub fn try_read_part<R: Read + Seek>(
+        &mut self,
+        archive: &mut ZipArchive<R>,
+        path: &str,
+    ) -> Result<String, PackageValidationIssue> {
         if let Some(cached) = self.part_cache.get(path) {
-            return Some(cached.clone());
+            return Ok(cached.clone());
         }
-        let content = self.read_part_from_archive(archive, path).ok()?;
+        let content = self.read_part_from_archive(archive, path)?;
         self.part_cache.insert(path.to_string(), content.clone());
-        Some(content)
+        Ok(content)
     }
 
     fn read_part_from_archive<R: Read + Seek>(
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..84ce692 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -93,14 +93,18 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
+        match ctx.try_read_part(archive, &path) {
+            Ok(content) => {
+                if let Err(e) = validate_well_formed_xml(&content) {
+                    report.push(PackageValidationIssue::error(
+                        ValidationCategory::Xml,
+                        e.to_string(),
+                        Some(&path),
+                    ));
+                }
             }
+            Err(issue) => report.push(issue),
+        }
     }
 }
 
-- 
2.43.0


From 01ffc8d608fb2161836cfa818da78288fef7f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 35/81] fix: repair references written with either quote and
 lost presentation relationships

---
 src/oxml/repair.rs | 102 +++++++++++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 35 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index b9796c7..20b12a1 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -419,14 +419,10 @@ impl PptxRepair {
     }
 
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        if let Some(start) = line.find(&pattern) {
-            let value_start = start + pattern.len();
-            if let Some(end) = line[value_start..].find('"') {
-                return Some(line[value_start..value_start + end].to_string());
-            }
-        }
-        None
+        attributes(line)
+            .into_iter()
+            .find(|(name, ..)| name == attr)
+            .map(|(_, value, _)| value)
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
@@ -661,27 +657,24 @@ impl PptxRepair {
         if self.is_broken(path) {
             return;
         }
-        let prefixes: Vec<String> = REL_NAMESPACES
+        let prefixes: Vec<String> = Tag::all(&xml)
             .iter()
-            .flat_map(|ns| {
-                let needle = format!("=\"{ns}\"");
-                xml.match_indices(&needle)
-                    .filter_map(|(at, _)| xml[..at].rsplit("xmlns:").next().map(str::to_string))
-                    .collect::<Vec<_>>()
-            })
+            .flat_map(|tag| attributes(&xml[tag.start..tag.end]))
+            .filter(|(_, value, _)| REL_NAMESPACES.contains(&value.as_str()))
+            .filter_map(|(name, ..)| name.strip_prefix("xmlns:").map(str::to_string))
             .collect();
-        let value = format!("=\"{}\"", crate::core::escape_xml(rel_id));
         loop {
             let tags = Tag::all(&xml);
             let found = tags.iter().enumerate().find_map(|(i, tag)| {
-                let text = &xml[tag.start..tag.end];
-                let at = text.match_indices(&value).map(|(at, _)| at).find(|at| {
-                    let name = text[..*at].rsplit(|c: char| c.is_whitespace()).next().unwrap_or("");
-                    name.split_once(':').is_some_and(|(prefix, _)| prefixes.iter().any(|p| p == prefix))
-                })?;
-                Some((i, at))
+                attributes(&xml[tag.start..tag.end])
+                    .into_iter()
+                    .find(|(name, value, _)| {
+                        value == rel_id
+                            && name.split_once(':').is_some_and(|(prefix, _)| prefixes.iter().any(|p| p == prefix))
+                    })
+                    .map(|(_, _, range)| (i, range))
             });
-            let Some((i, at)) = found else {
+            let Some((i, attribute)) = found else {
                 break;
             };
             let tag = &tags[i];
@@ -695,23 +688,21 @@ impl PptxRepair {
                 | "custData" | "videoFile" | "audioFile" | "wavAudioFile" | "snd" | "regular" | "bold"
                 | "italic" | "boldItalic" => tags[whole].start..Tag::element_end(&tags, whole),
                 // Only the attribute, with the space in front of it
-                _ => {
-                    let text = &xml[tag.start..tag.start + at];
-                    let name = text.rfind(char::is_whitespace).unwrap_or(0);
-                    tag.start + name..tag.start + at + value.len()
-                }
+                _ => tag.start + attribute.start..tag.start + attribute.end,
             };
             let slide_id = (tag.local == "sldId")
-                .then(|| self.extract_attribute(&xml[tag.start..tag.end], " id"))
+                .then(|| self.extract_attribute(&xml[tag.start..tag.end], "id"))
                 .flatten();
             xml.replace_range(cut, "");
             // Sections list the slide by its id
             if let Some(id) = slide_id {
-                let entry = format!(" id=\"{id}\"");
                 while let Some(range) = {
                     let tags = Tag::all(&xml);
                     tags.iter()
-                        .position(|t| t.local == "sldId" && xml[t.start..t.end].contains(&entry))
+                        .position(|t| {
+                            t.local == "sldId"
+                                && self.extract_attribute(&xml[t.start..t.end], "id").as_ref() == Some(&id)
+                        })
                         .map(|i| tags[i].start..Tag::element_end(&tags, i))
                 } {
                     xml.replace_range(range, "");
@@ -736,7 +727,11 @@ impl PptxRepair {
             None => {
                 // Find the highest rId
                 let xml = self.package.get_part_string(&rels_path(PRESENTATION)).unwrap_or_default();
-                let id = format!("rId{}", self.find_max_rel_id(&xml).saturating_add(1));
+                let mut number = self.find_max_rel_id(&xml).saturating_add(1);
+                while rels.iter().any(|r| r.id == format!("rId{number}")) {
+                    number = number.wrapping_add(1);
+                }
+                let id = format!("rId{number}");
                 rels.push(Rel {
                     id: id.clone(),
                     rel_type: format!("{REL_BASE}/slide"),
@@ -823,7 +818,7 @@ impl PptxRepair {
         Tag::all(xml)
             .iter()
             .filter(|t| t.local == "sldId")
-            .filter_map(|t| self.extract_attribute(&xml[t.start..t.end], " id")?.parse().ok())
+            .filter_map(|t| self.extract_attribute(&xml[t.start..t.end], "id")?.parse().ok())
             .max()
             .unwrap_or(0)
     }
@@ -896,6 +891,7 @@ impl PptxRepair {
             "handoutMasters" => "handoutMaster",
             "theme" => "theme",
             "charts" => "chart",
+            "ink" => "ink",
             _ => match path {
                 PRESENTATION => "officeDocument",
                 "ppt/presProps.xml" => "presProps",
@@ -1069,8 +1065,15 @@ impl PptxRepair {
             ("handoutMasterId", "handoutMaster", in_folder("handoutMasters")),
             ("sldId", "slide", self.slide_parts()),
         ] {
-            for (id, path) in used(item).into_iter().zip(parts) {
-                entries.push((id, kind, path));
+            if root.is_none() {
+                // It is made anew from these
+                for path in parts {
+                    entries.push((format!("rId{}", entries.len() + 101), kind, path));
+                }
+            } else {
+                for (id, path) in used(item).into_iter().zip(parts) {
+                    entries.push((id, kind, path));
+                }
             }
         }
         let reserved = self.references(PRESENTATION);
@@ -1130,6 +1133,7 @@ fn content_type_of_kind(kind: &str) -> Option<&'static str> {
         "comments" => "application/vnd.openxmlformats-officedocument.presentationml.comments+xml",
         "commentAuthors" => "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml",
         "tags" => "application/vnd.openxmlformats-officedocument.presentationml.tags+xml",
+        "ink" => "application/vnd.openxmlformats-officedocument.presentationml.ink+xml",
         "theme" => "application/vnd.openxmlformats-officedocument.theme+xml",
         "themeOverride" => "application/vnd.openxmlformats-officedocument.themeOverride+xml",
         "chart" => "application/vnd.openxmlformats-officedocument.drawingml.chart+xml",
@@ -1146,6 +1150,34 @@ fn content_type_of_kind(kind: &str) -> Option<&'static str> {
     })
 }
 
+/// Attributes of a start tag: name, value, and where they stand with the space in front
+fn attributes(tag: &str) -> Vec<(String, String, std::ops::Range<usize>)> {
+    let mut found = Vec::new();
+    let mut pos = tag.find(char::is_whitespace).unwrap_or(tag.len());
+    while let Some(eq) = tag[pos..].find('=') {
+        let name = tag[pos..pos + eq].trim();
+        let rest = &tag[pos + eq + 1..];
+        let lead = rest.len() - rest.trim_start().len();
+        let Some(quote) = rest[lead..].chars().next().filter(|c| *c == '"' || *c == '\'') else {
+            break;
+        };
+        let value = &rest[lead + 1..];
+        let Some(len) = value.find(quote) else {
+            break;
+        };
+        let end = pos + eq + 1 + lead + 1 + len + 1;
+        let value = value[..len]
+            .replace("&lt;", "<")
+            .replace("&gt;", ">")
+            .replace("&quot;", "\"")
+            .replace("&apos;", "'")
+            .replace("&amp;", "&");
+        found.push((name.to_string(), value, pos..end));
+        pos = end;
+    }
+    found
+}
+
 /// A tag of a well-formed XML document and where it stands
 struct Tag {
     start: usize,
-- 
2.43.0


From 112cf8deea0291b98566d2984ce147794cffd7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 36/81] fix: detect the format of images of four or five bytes
 without panicking

---
 src/generator/images.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 14ca8cc..34cc50d 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -477,18 +477,12 @@ impl ImageBuilder {
         let defaults = ElementPlacement::image_defaults();
         
         // Detect format from magic bytes
-        let format = if data.len() >= 4 {
-            if &data[0..4] == b"\x89PNG" {
-                "PNG"
-            } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
-                "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
-                "GIF"
-            } else {
-                "PNG" // default
-            }
+        let format = if data.starts_with(b"\xFF\xD8") {
+            "JPEG"
+        } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
+            "GIF"
         } else {
-            "PNG"
+            "PNG" // default
         };
         
         Self::from_bytes(data, defaults.width, defaults.height, format)
-- 
2.43.0


From f26a511923b9959c5bbae875303928150cb8f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 37/81] fix: keep nested, loose and task list items, quotes,
 tables and code of Markdown documents

---
 src/cli/markdown/parser.rs | 200 ++++++++++++++++++++-----------------
 1 file changed, 107 insertions(+), 93 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..d3e0252 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -7,7 +7,7 @@ use pulldown_cmark::{Event, HeadingLevel, Options, Parser, Tag, TagEnd};
 
 use super::mermaid;
 use crate::generator::{
-    CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
+    BulletPoint, BulletStyle, CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
 };
 
 /// Parse markdown content into slides
@@ -16,11 +16,12 @@ pub fn parse(content: &str) -> Result<Vec<SlideContent>, String> {
     parser.parse(content)
 }
 
-/// Represents a task list item
+/// A list item: its text, the lists around it and how its own list is numbered
 #[derive(Clone, Debug)]
-struct TaskItem {
+struct ListItem {
     text: String,
-    checked: bool,
+    level: u32,
+    style: BulletStyle,
 }
 
 /// State machine for markdown parsing
@@ -29,9 +30,8 @@ struct MarkdownParser {
     current_slide: Option<SlideContent>,
     current_text: String,
     // List state
-    in_list: bool,
-    list_items: Vec<String>,
-    task_items: Vec<TaskItem>,
+    lists: Vec<BulletStyle>,
+    list_items: Vec<ListItem>,
     // Table state
     in_table: bool,
     table_rows: Vec<Vec<String>>,
@@ -48,11 +48,10 @@ struct MarkdownParser {
     is_strikethrough: bool,
     // Blockquote (speaker notes)
     in_blockquote: bool,
+    quote_depth: usize,
     blockquote_text: String,
     // Image state
     pending_image: Option<(String, String)>,
-    // Task list state
-    current_task_checked: bool,
 }
 
 impl MarkdownParser {
@@ -61,9 +60,8 @@ impl MarkdownParser {
             slides: Vec::new(),
             current_slide: None,
             current_text: String::new(),
-            in_list: false,
+            lists: Vec::new(),
             list_items: Vec::new(),
-            task_items: Vec::new(),
             in_table: false,
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -76,9 +74,9 @@ impl MarkdownParser {
             is_italic: false,
             is_strikethrough: false,
             in_blockquote: false,
+            quote_depth: 0,
             blockquote_text: String::new(),
             pending_image: None,
-            current_task_checked: false,
         }
     }
 
@@ -105,6 +103,12 @@ impl MarkdownParser {
 
     fn handle_event(&mut self, event: Event) {
         match event {
+            // Headings in quotes and lists are text
+            Event::Start(Tag::Heading { .. }) if self.in_blockquote || !self.lists.is_empty() => {
+                self.separate_blocks();
+            }
+            Event::End(TagEnd::Heading(_)) if self.in_blockquote || !self.lists.is_empty() => {}
+
             // Headings create new slides
             Event::Start(Tag::Heading { level, .. }) => {
                 if level == HeadingLevel::H1 {
@@ -116,37 +120,38 @@ impl MarkdownParser {
                 let title = std::mem::take(&mut self.current_text).trim().to_string();
                 if level == HeadingLevel::H1 {
                     self.current_slide = Some(SlideContent::new(&title));
-                } else if let Some(ref mut slide) = self.current_slide {
+                } else {
                     let formatted = format!("**{}**", title);
-                    *slide = slide.clone().add_bullet(&formatted);
+                    self.add_paragraph(&formatted);
                 }
             }
 
             // Lists
-            Event::Start(Tag::List(_)) => {
-                self.in_list = true;
-                self.list_items.clear();
-                self.task_items.clear();
+            Event::Start(Tag::List(first)) => {
+                // The item around this list
+                self.finish_list_item();
+                self.lists.push(match first {
+                    Some(_) => BulletStyle::Number,
+                    None => BulletStyle::Bullet,
+                });
             }
             Event::End(TagEnd::List(_)) => {
-                self.in_list = false;
-                self.flush_list_items();
+                self.lists.pop();
+                if self.lists.is_empty() {
+                    self.flush_list_items();
+                }
             }
             Event::Start(Tag::Item) => {
-                self.current_text.clear();
-                // Reset task state for new item
-                self.current_task_checked = false;
-            }
-            Event::End(TagEnd::Item) => {
-                let item = std::mem::take(&mut self.current_text).trim().to_string();
-                if !item.is_empty() {
-                    // Since pulldown-cmark may have stripped the [x]/[ ] already,
-                    // we need to check for task items differently
-                    // For now, we'll treat all items as regular bullets
-                    // and let the user add special characters if they want
-                    self.list_items.push(item);
+                if self.in_blockquote {
+                    self.separate_blocks();
+                } else {
+                    self.current_text.clear();
                 }
             }
+            Event::End(TagEnd::Item) => self.finish_list_item(),
+            Event::TaskListMarker(checked) => {
+                self.push_text(if checked { "☑ " } else { "☐ " });
+            }
 
             // Tables
             Event::Start(Tag::Table(_)) => {
@@ -207,12 +212,16 @@ impl MarkdownParser {
 
             // Blockquotes (speaker notes)
             Event::Start(Tag::BlockQuote) => {
+                self.quote_depth += 1;
                 self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.separate_blocks();
             }
             Event::End(TagEnd::BlockQuote) => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.quote_depth -= 1;
+                if self.quote_depth == 0 {
+                    self.in_blockquote = false;
+                    self.flush_blockquote();
+                }
             }
 
             // Inline formatting
@@ -234,24 +243,24 @@ impl MarkdownParser {
                 if html_str.contains("<mark>") || html_str.contains("<ins>") {
                     // Highlight syntax: ==text== or <ins>text</ins>
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("=={}==", text));
                         }
                     }
                 } else if html_str.contains("<sub>") {
                     // Subscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("~{}~", text));
                         }
                     }
                 } else if html_str.contains("<sup>") {
                     // Superscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("^{}^", text));
                         }
                     }
@@ -259,10 +268,9 @@ impl MarkdownParser {
             }
 
             // Images
-            Event::Start(Tag::Image {
-                dest_url, title, ..
-            }) => {
-                self.pending_image = Some((dest_url.to_string(), title.to_string()));
+            Event::Start(Tag::Image { dest_url, .. }) => {
+                // The text inside describes the image
+                self.pending_image = Some((dest_url.to_string(), String::new()));
             }
             Event::End(TagEnd::Image) => {
                 if let Some((url, alt)) = self.pending_image.take() {
@@ -289,12 +297,14 @@ impl MarkdownParser {
 
             // Paragraphs
             Event::Start(Tag::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.in_blockquote || !self.lists.is_empty() {
+                    self.separate_blocks();
+                } else if !self.in_table && !self.in_code_block {
                     self.current_text.clear();
                 }
             }
             Event::End(TagEnd::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.lists.is_empty() && !self.in_table && !self.in_blockquote && !self.in_code_block {
                     let text = std::mem::take(&mut self.current_text).trim().to_string();
                     if !text.is_empty() {
                         self.add_paragraph(&text);
@@ -306,7 +316,22 @@ impl MarkdownParser {
         }
     }
 
+    /// Keep the next block of a quote or list item apart from the one before
+    fn separate_blocks(&mut self) {
+        if self.in_blockquote {
+            if !self.blockquote_text.is_empty() && !self.blockquote_text.ends_with('\n') {
+                self.blockquote_text.push('\n');
+            }
+        } else if !self.current_text.is_empty() && !self.current_text.ends_with(' ') {
+            self.current_text.push(' ');
+        }
+    }
+
     fn push_text(&mut self, text: &str) {
+        if let Some((_, alt)) = &mut self.pending_image {
+            alt.push_str(text);
+            return;
+        }
         let formatted = if self.is_bold && self.is_italic {
             format!("***{}***", text)
         } else if self.is_bold {
@@ -340,51 +365,29 @@ impl MarkdownParser {
         }
     }
 
-    fn flush_list_items(&mut self) {
-        // Flush regular list items
-        if !self.list_items.is_empty() {
-            let items = std::mem::take(&mut self.list_items);
-
-            if let Some(ref mut slide) = self.current_slide {
-                for item in items {
-                    *slide = slide.clone().add_bullet(&item);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for item in items {
-                    slide = slide.add_bullet(&item);
-                }
-                self.current_slide = Some(slide);
-            }
+    fn finish_list_item(&mut self) {
+        let text = std::mem::take(&mut self.current_text).trim().to_string();
+        if let Some(style) = self.lists.last()
+            && !text.is_empty()
+        {
+            let level = self.lists.len() as u32 - 1;
+            self.list_items.push(ListItem { text, level, style: *style });
         }
+    }
 
-        // Flush task list items
-        if !self.task_items.is_empty() {
-            let tasks = std::mem::take(&mut self.task_items);
-
-            if let Some(ref mut slide) = self.current_slide {
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    *slide = slide.clone().add_bullet(&text);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    slide = slide.add_bullet(&text);
-                }
-                self.current_slide = Some(slide);
-            }
+    fn flush_list_items(&mut self) {
+        if self.list_items.is_empty() {
+            return;
+        }
+        let items = std::mem::take(&mut self.list_items);
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new("Slide"));
+        for item in items {
+            slide.content.push(item.text.clone());
+            slide.bullets.push(
+                BulletPoint::new(&item.text)
+                    .with_level(item.level.min(8))
+                    .with_style(item.style),
+            );
         }
     }
 
@@ -393,6 +396,12 @@ impl MarkdownParser {
             return;
         }
 
+        // A slide shows one table
+        if let Some(title) = self.current_slide.as_ref().filter(|s| s.table.is_some()).map(|s| s.title.clone()) {
+            self.finalize_current_slide();
+            self.current_slide = Some(SlideContent::new(&format!("{} (continued)", title)));
+        }
+
         let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
@@ -421,7 +430,7 @@ impl MarkdownParser {
             return;
         }
 
-        let code_block = CodeBlock::new(code.trim(), lang_str);
+        let code_block = CodeBlock::new(code.trim_matches(['\n', '\r']), lang_str);
 
         if let Some(ref mut slide) = self.current_slide {
             slide.code_blocks.push(code_block);
@@ -508,9 +517,14 @@ impl MarkdownParser {
 
         let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(notes);
+        if notes.is_empty() {
+            return;
         }
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new("Slide"));
+        slide.notes = Some(match slide.notes.take() {
+            Some(earlier) => format!("{}\n{}", earlier, notes),
+            None => notes,
+        });
     }
 
     fn add_image_placeholder(&mut self, url: &str, alt: &str) {
-- 
2.43.0


From 917500c381ee9139a3f43ca3c6599965e89e7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 38/81] fix: show the table of slides of every layout

---
 src/generator/slide_xml/content.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 0f61010..864142b 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use crate::generator::shapes_xml::generate_shape_xml;
-use crate::generator::slide_content::SlideContent;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
@@ -42,6 +42,13 @@ pub fn render_additional_content(
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
+    // Title and content slides place their table themselves
+    if let Some(table) = content.table.as_ref().filter(|_| content.layout != SlideLayout::TitleAndContent) {
+        xml.push('\n');
+        let id = auto_id(15 + content.shapes.len());
+        xml.push_str(&crate::generator::table::generate_table_xml(table, id));
+    }
+
     // Render images (actual picture elements, not placeholders)
     let image_start_id = 20 + content.shapes.len();
     let image_rel_start = 2 + usize::from(content.notes.is_some());
-- 
2.43.0


From f20893520e01392c6257ca7700b4fe032693d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 39/81] fix: write code blocks as paragraphs, with and without
 syntax highlighting

---
 src/cli/syntax.rs                  |  5 +++++
 src/generator/slide_xml/content.rs | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cli/syntax.rs b/src/cli/syntax.rs
index 3079e73..4655b05 100644
--- a/src/cli/syntax.rs
+++ b/src/cli/syntax.rs
@@ -122,6 +122,11 @@ pub fn generate_highlighted_code_xml(code: &str, language: &str) -> String {
         xml.push_str("</a:p>");
     }
 
+    // A text body has at least one paragraph
+    if xml.is_empty() {
+        xml.push_str("<a:p/>");
+    }
+
     xml
 }
 
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 864142b..c6e55f3 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -121,12 +121,18 @@ fn generate_code_block(
 
     #[cfg(not(feature = "syntect"))]
     let highlighted_xml = {
-        // Fallback to basic XML without syntax highlighting
-        let escaped_code = code_block.code
-            .replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        format!("<a:t>{}</a:t>", escaped_code)
+        // Fallback without syntax highlighting: one paragraph per line, in the block's light color
+        let mut xml = String::new();
+        for line in code_block.code.lines() {
+            xml.push_str(&format!(
+                r#"<a:p><a:pPr algn="l"/><a:r><a:rPr lang="en-US" sz="1400" dirty="0"><a:solidFill><a:srgbClr val="839496"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r></a:p>"#,
+                crate::core::escape_xml(line)
+            ));
+        }
+        if xml.is_empty() {
+            xml.push_str("<a:p/>");
+        }
+        xml
     };
 
     let x = code_block.x;
-- 
2.43.0


From 309586e7ad1119f820b6892b843a43be3d47ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 40/81] fix: escape every block marker, entity, fence and line
 break in exported Markdown

---
 src/export/md.rs | 63 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..2c69916 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -94,14 +94,14 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        md.push_str(&format!("title: {}\n", escape_yaml(presentation.get_title())));
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_inline(presentation.get_title(), " ")));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -114,15 +114,15 @@ pub fn export_to_markdown_with_options(
 
         // Slide number header
         if options.include_slide_numbers {
-            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown(&slide.title)));
+            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_inline(&slide.title, " ")));
         } else {
-            md.push_str(&format!("## {}\n\n", escape_markdown(&slide.title)));
+            md.push_str(&format!("## {}\n\n", escape_inline(&slide.title, " ")));
         }
 
         // Bullet content
         if !slide.content.is_empty() {
             for item in &slide.content {
-                md.push_str(&format!("- {}\n", escape_markdown(item)));
+                md.push_str(&format!("- {}\n", escape_inline(item, "\\\n  ")));
             }
             md.push('\n');
         }
@@ -140,11 +140,11 @@ pub fn export_to_markdown_with_options(
                 let alt_text = format!("Image {} on slide {}", img_idx + 1, slide_num);
                 // Note: Actual image data would need to be saved separately
                 md.push_str(&format!(
-                    "![{}](images/slide{}_image{}{})\n\n",
+                    "![{}](images/slide{}_image{}.{})\n\n",
                     alt_text,
                     slide_num,
                     img_idx + 1,
-                    image.format.to_lowercase().replace("jpeg", ".jpg").replace("png", ".png")
+                    image.format.to_lowercase().replace("jpeg", "jpg")
                 ));
             }
         }
@@ -152,9 +152,10 @@ pub fn export_to_markdown_with_options(
         // Code blocks
         if !slide.code_blocks.is_empty() {
             for code_block in &slide.code_blocks {
+                let fence = code_fence(&code_block.code);
                 md.push_str(&format!(
-                    "```{lang}\n{code}\n```\n\n",
-                    lang = &code_block.language,
+                    "{fence}{lang}\n{code}\n{fence}\n\n",
+                    lang = code_block.language.replace(['`', '\n', '\r'], " "),
                     code = &code_block.code
                 ));
             }
@@ -165,7 +166,7 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                md.push_str(&format!("> {}\n\n", escape_inline(notes, "\\\n> ")));
             }
         }
     }
@@ -179,16 +180,20 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
 
     // Header row
     if let Some(first_row) = table.rows.first() {
+        // Cells beyond the header row's are not part of a GFM table
+        let columns = table.rows.iter().map(|row| row.cells.len()).max().unwrap_or(0);
+        let missing = columns - first_row.cells.len();
         md.push_str("| ");
         for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+            md.push_str(&escape_inline(&cell.text, "<br>"));
             md.push_str(" | ");
         }
+        md.push_str(&" | ".repeat(missing));
         md.push('\n');
 
         // Separator
         md.push('|');
-        for _ in &first_row.cells {
+        for _ in 0..columns {
             md.push_str(" --- |");
         }
         md.push('\n');
@@ -197,7 +202,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
         for row in table.rows.iter().skip(1) {
             md.push_str("| ");
             for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
+                md.push_str(&escape_inline(&cell.text, "<br>"));
                 md.push_str(" | ");
             }
             md.push('\n');
@@ -218,15 +223,43 @@ fn escape_markdown(text: &str) -> String {
         .replace('#', "\\#")
         .replace('<', "\\<")
         .replace('>', "\\>")
+        .replace('&', "\\&")
+        .replace('|', "\\|")
+        .replace('~', "\\~")
+}
+
+/// Escape a text whose lines are joined with the given break, so that no line starts a block
+fn escape_inline(text: &str, line_break: &str) -> String {
+    text.lines()
+        .flat_map(|line| line.split('\r'))
+        .map(str::trim)
+        .filter(|line| !line.is_empty())
+        .map(|line| {
+            let escaped = escape_markdown(line);
+            let digits = escaped.bytes().take_while(u8::is_ascii_digit).count();
+            match escaped.as_bytes().get(digits) {
+                Some(b'-' | b'+' | b'=') if digits == 0 => format!("\\{escaped}"),
+                Some(b'.' | b')') if digits > 0 => format!("{}\\{}", &escaped[..digits], &escaped[digits..]),
+                _ => escaped,
+            }
+        })
+        .collect::<Vec<_>>()
+        .join(line_break)
+}
+
+/// A code fence longer than any run of backticks in the code
+fn code_fence(code: &str) -> String {
+    let longest = code.split(|c| c != '`').map(str::len).max().unwrap_or(0);
+    "`".repeat(longest.max(2) + 1)
 }
 
 /// Escape special YAML characters in frontmatter
 fn escape_yaml(text: &str) -> String {
     if text.contains('\n') || text.contains('"') || text.contains('\\') {
         // Use literal block scalar for multiline or complex strings
-        format!("|\n  {}", text.replace('\n', "\n  "))
+        format!("|2-\n  {}", text.replace("\r\n", "\n").replace('\n', "\n  "))
     } else {
-        text.replace('"', "\\\"").replace('\\', "\\\\")
+        format!("\"{text}\"")
     }
 }
 
-- 
2.43.0


From 261d441226b9f01d8ae7e8be7c77db49bfed2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 41/81] fix: export the cells of tables to HTML and escape
 every text

---
 src/export/html.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..51aaa94 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -69,7 +69,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,7 +97,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_html(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
@@ -128,7 +128,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_html(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
@@ -137,7 +137,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     if !slide.content.is_empty() {
         html.push_str("<ul>\n");
         for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
+            html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
     }
@@ -157,7 +157,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -178,14 +178,25 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
 
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
+    for row in &table.rows {
+        html.push_str("<tr>");
+        // Cells covered by a merge have no place of their own
+        for cell in row.cells.iter().filter(|cell| !cell.h_merge && !cell.v_merge) {
+            let span = |name: &str, n: Option<u32>| n.filter(|n| *n > 1).map(|n| format!(" {name}=\"{n}\"")).unwrap_or_default();
+            html.push_str(&format!(
+                "<td{}{}>{}</td>",
+                span("colspan", cell.grid_span),
+                span("rowspan", cell.row_span),
+                escape_html(&cell.text)
+            ));
+        }
+        html.push_str("</tr>\n");
+    }
     html.push_str("</tbody>\n");
 
     html.push_str("</table>\n");
@@ -222,14 +233,14 @@ fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Opti
 
         Some(format!(
             "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
+            escape_html(&filepath), escape_html(&image.filename)
         ))
     } else {
         // Use base64 encoding
         let b64 = base64_encode(&bytes);
         Some(format!(
             "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
+            mime, b64, escape_html(&image.filename)
         ))
     }
 }
-- 
2.43.0


From df05fee53155b668cf0e18c621787ff29469837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 42/81] fix: import HTML with void, unclosed, nested and
 captioned elements without losing or merging text

---
 src/import/html.rs | 582 ++++++++++++++++++++++++++++-----------------
 1 file changed, 367 insertions(+), 215 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..f5d5306 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -38,6 +38,8 @@
 //! - `<br>` → Line break within text
 //! - `<title>` → Presentation title (falls back to first `<h1>`)
 
+use std::collections::HashMap;
+
 use crate::generator::{CodeBlock, SlideContent};
 use crate::generator::slide_content::{BulletPoint, BulletTextFormat};
 
@@ -121,6 +123,9 @@ enum HtmlEvent {
     Text(String),
 }
 
+/// Longest `&...;` reference that is looked for
+const MAX_ENTITY_LEN: usize = 32;
+
 /// Decode common HTML entities
 fn decode_entities(s: &str) -> String {
     let mut out = String::with_capacity(s.len());
@@ -128,7 +133,7 @@ fn decode_entities(s: &str) -> String {
     let mut i = 0;
     while i < bytes.len() {
         if bytes[i] == b'&'
-            && let Some(end) = s[i..].find(';') {
+            && let Some(end) = bytes[i..].iter().take(MAX_ENTITY_LEN).position(|b| *b == b';') {
                 let entity = &s[i + 1..i + end];
                 let ch = match entity {
                     "amp" => Some('&'),
@@ -144,7 +149,7 @@ fn decode_entities(s: &str) -> String {
                     "#x2014" => Some('\u{2014}'),
                     "#x2013" => Some('\u{2013}'),
                     _ => {
-                        if let Some(hex) = entity.strip_prefix("#x") {
+                        if let Some(hex) = entity.strip_prefix("#x").or_else(|| entity.strip_prefix("#X")) {
                             u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
                         } else if let Some(num) = entity.strip_prefix('#') {
                             num.parse::<u32>().ok().and_then(char::from_u32)
@@ -226,6 +231,9 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 fn parse_css_color(value: &str) -> Option<String> {
     let value = value.trim();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
@@ -251,10 +259,10 @@ fn parse_css_color(value: &str) -> Option<String> {
     }
 }
 
-/// Parse a CSS font-size value to points
+/// Parse a CSS font-size value to points (PowerPoint allows 1 to 4000)
 fn parse_font_size(value: &str) -> Option<u32> {
     let value = value.trim();
-    if let Some(px) = value.strip_suffix("px") {
+    let size = if let Some(px) = value.strip_suffix("px") {
         let px = px.trim().parse::<f64>().ok()?;
         Some((px / 1.333).round() as u32)
     } else if let Some(pt) = value.strip_suffix("pt") {
@@ -262,7 +270,8 @@ fn parse_font_size(value: &str) -> Option<u32> {
         Some(pt.round() as u32)
     } else {
         value.parse::<u32>().ok()
-    }
+    };
+    size.filter(|s| (1..=4000).contains(s))
 }
 
 /// Check if a CSS font-weight value represents bold
@@ -419,6 +428,31 @@ const VOID_TAGS: &[&str] = &[
     "link", "meta", "param", "source", "track", "wbr",
 ];
 
+/// Tags whose content is raw text up to their end tag
+const RAW_TEXT_TAGS: &[&str] = &["script", "style"];
+
+/// Whether the characters after a `<` make it markup rather than text
+fn starts_markup(rest: &[char]) -> bool {
+    match rest {
+        ['/', c, ..] => c.is_ascii_alphabetic(),
+        [c, ..] => c.is_ascii_alphabetic() || *c == '!' || *c == '?',
+        [] => false,
+    }
+}
+
+/// Position of the end tag of `name` at or after `from` (the end of input if there is none)
+fn find_end_tag(chars: &[char], from: usize, name: &str) -> usize {
+    (from..chars.len())
+        .find(|&i| {
+            chars[i] == '<'
+                && chars.get(i + 1) == Some(&'/')
+                && name.chars().enumerate().all(|(k, c)| {
+                    chars.get(i + 2 + k).is_some_and(|x| x.eq_ignore_ascii_case(&c))
+                })
+        })
+        .unwrap_or(chars.len())
+}
+
 /// Walk through HTML and produce events
 fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut events = Vec::new();
@@ -427,11 +461,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut i = 0;
 
     while i < len {
-        if chars[i] == '<' {
+        if chars[i] == '<' && starts_markup(&chars[i + 1..]) {
             i += 1;
-            if i >= len {
-                break;
-            }
 
             // Comment <!-- ... -->
             if i + 3 <= len && chars[i] == '!' && i + 1 < len && chars[i + 1] == '-' && i + 2 < len && chars[i + 2] == '-' {
@@ -444,8 +475,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 continue;
             }
 
-            // Doctype/other <!...>
-            if chars[i] == '!' {
+            // Doctype/other <!...> or processing instruction <?...>
+            if chars[i] == '!' || chars[i] == '?' {
                 while i < len && chars[i] != '>' {
                     i += 1;
                 }
@@ -477,10 +508,6 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
             }
 
             // Opening or self-closing tag
-            // Skip whitespace before tag name
-            while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                i += 1;
-            }
             let mut name = String::new();
             while i < len && (chars[i].is_alphanumeric() || chars[i] == '-' || chars[i] == ':' || chars[i] == '_' || chars[i] == '.') {
                 name.push(chars[i]);
@@ -535,7 +562,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                         }
                     } else {
                         // unquoted value
-                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && chars[i] != '/' {
+                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' {
                             attr_value.push(chars[i]);
                             i += 1;
                         }
@@ -550,19 +577,20 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
             }
 
             if !tag_name.is_empty() {
+                // The content of these elements is not markup: skip to their end tag
+                if RAW_TEXT_TAGS.contains(&tag_name.as_str()) {
+                    i = find_end_tag(&chars, i, &tag_name);
+                }
                 events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
             }
         } else {
             // Text content
             let mut text = String::new();
-            while i < len && chars[i] != '<' {
+            while i < len && !(chars[i] == '<' && starts_markup(&chars[i + 1..])) {
                 text.push(chars[i]);
                 i += 1;
             }
-            let trimmed = text.trim();
-            if !trimmed.is_empty() {
-                events.push(HtmlEvent::Text(decode_entities(&text)));
-            }
+            events.push(HtmlEvent::Text(decode_entities(&text)));
         }
     }
 
@@ -579,6 +607,35 @@ const SKIP_TAGS: &[&str] = &[
     "title",
 ];
 
+/// Tags that start a new block and so end a paragraph that is still open
+const BLOCK_TAGS: &[&str] = &[
+    "address", "article", "aside", "blockquote", "center", "dd", "details", "dialog", "div",
+    "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4",
+    "h5", "h6", "header", "hr", "li", "main", "nav", "ol", "p", "pre", "section", "summary",
+    "table", "ul", "caption", "thead", "tbody", "tfoot", "tr", "td", "th",
+];
+
+const HEADING_TAGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];
+
+/// Tags that a start tag of `name` ends when they are still open, and the tags the search
+/// for them does not go beyond
+fn implied_ends(name: &str) -> (&'static [&'static str], &'static [&'static str]) {
+    match name {
+        "li" => (&["li"], &["ul", "ol", "td", "th", "table", "blockquote"]),
+        "dt" | "dd" => (&["dt", "dd"], &["dl", "td", "th", "table", "blockquote"]),
+        "td" | "th" => (&["td", "th", "caption"], &["tr", "table"]),
+        "tr" => (&["td", "th", "tr", "caption"], &["table"]),
+        "thead" | "tbody" | "tfoot" => {
+            (&["td", "th", "tr", "thead", "tbody", "tfoot", "caption"], &["table"])
+        }
+        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => (
+            HEADING_TAGS,
+            &["td", "th", "table", "blockquote", "li", "div", "section", "article"],
+        ),
+        _ => (&[], &[]),
+    }
+}
+
 struct HtmlSlideParser {
     options: HtmlParseOptions,
     slides: Vec<SlideContent>,
@@ -586,11 +643,12 @@ struct HtmlSlideParser {
     text_buffer: String,
     tag_stack: Vec<String>,
     style_stack: Vec<InlineStyle>,
-    in_list: bool,
-    in_table: bool,
-    in_code: bool,
-    in_blockquote: bool,
-    italic: bool,
+    /// How many elements of each name are open
+    open_tags: HashMap<String, usize>,
+    /// How many open elements are skipped with all of their content
+    skip_depth: usize,
+    /// Bold and italic markers of the open elements, and whether each is in the text buffer
+    markers: Vec<(&'static str, bool)>,
     list_items: Vec<(String, Option<BulletTextFormat>)>,
     table_rows: Vec<Vec<String>>,
     current_row: Vec<String>,
@@ -610,11 +668,9 @@ impl HtmlSlideParser {
             text_buffer: String::new(),
             tag_stack: Vec::new(),
             style_stack: Vec::new(),
-            in_list: false,
-            in_table: false,
-            in_code: false,
-            in_blockquote: false,
-            italic: false,
+            open_tags: HashMap::new(),
+            skip_depth: 0,
+            markers: Vec::new(),
             list_items: Vec::new(),
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -634,20 +690,16 @@ impl HtmlSlideParser {
     fn parse(&mut self, events: &[HtmlEvent]) -> Result<Vec<SlideContent>, String> {
         for event in events {
             match event {
-                HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
-                    self.handle_open_tag(name, attrs);
-                }
-                HtmlEvent::CloseTag(name) => {
-                    self.handle_close_tag(name);
-                    self.tag_stack.pop();
-                }
-                HtmlEvent::Text(text) => {
-                    self.handle_text(text);
-                }
+                HtmlEvent::OpenTag { name, attrs } => self.open_tag(name, attrs),
+                HtmlEvent::CloseTag(name) => self.close_tag(name),
+                HtmlEvent::Text(text) => self.handle_text(text),
             }
         }
 
+        // Elements that are still open end with the document
+        while !self.tag_stack.is_empty() {
+            self.close_top();
+        }
         self.finalize_current_slide();
 
         if self.slides.is_empty() {
@@ -663,58 +715,200 @@ impl HtmlSlideParser {
     }
 
     fn is_inside_skip_tag(&self) -> bool {
-        self.tag_stack.iter().any(|t| SKIP_TAGS.contains(&t.as_str()))
+        self.skip_depth > 0
     }
 
-    fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
-        if self.is_inside_skip_tag() {
+    fn open_count(&self, name: &str) -> usize {
+        self.open_tags.get(name).copied().unwrap_or(0)
+    }
+
+    fn in_cell(&self) -> bool {
+        self.open_count("td") + self.open_count("th") > 0
+    }
+
+    /// Whether text goes into a table cell, a code block or the notes rather than on the slide
+    fn is_captured(&self) -> bool {
+        self.in_cell() || self.open_count("pre") > 0 || self.open_count("blockquote") > 0
+    }
+
+    /// The text that is being collected
+    fn sink(&mut self) -> &mut String {
+        if self.in_cell() {
+            &mut self.current_cell
+        } else if self.open_count("pre") > 0 {
+            &mut self.code_content
+        } else if self.open_count("blockquote") > 0 {
+            &mut self.blockquote_text
+        } else {
+            &mut self.text_buffer
+        }
+    }
+
+    /// Put what follows on a line of its own
+    fn break_line(&mut self) {
+        let sink = self.sink();
+        let kept = sink.trim_end_matches(' ').len();
+        if kept > 0 && !sink[..kept].ends_with('\n') {
+            sink.truncate(kept);
+            sink.push('\n');
+        }
+    }
+
+    fn in_list(&self) -> bool {
+        self.open_count("ul") + self.open_count("ol") > 0
+    }
+
+    fn in_heading(&self) -> bool {
+        HEADING_TAGS.iter().any(|h| self.open_count(h) > 0)
+    }
+
+    /// End the block that is being collected
+    fn end_block(&mut self) {
+        if self.is_captured() || self.in_heading() {
+            self.break_line();
+        } else {
+            self.flush_text_buffer();
+        }
+    }
+
+    fn open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        if !self.is_inside_skip_tag() {
+            if BLOCK_TAGS.contains(&name) && self.open_count("pre") == 0 {
+                self.close_implied(&["p"], &["td", "th", "table", "caption"]);
+            }
+            let (ended, boundary) = implied_ends(name);
+            self.close_implied(ended, boundary);
+            // Text before the element belongs to what is around the element
+            // (the first item of a nested list goes on with the item the list is in)
+            let nested_list = matches!(name, "ul" | "ol" | "li") && self.in_list();
+            if BLOCK_TAGS.contains(&name) && (self.is_captured() || !nested_list) {
+                if !self.is_captured() && !self.text_buffer.trim().is_empty() {
+                    self.close_implied(HEADING_TAGS, &["table"]);
+                }
+                self.end_block();
+            }
+        }
+        if VOID_TAGS.contains(&name) {
+            self.handle_open_tag(name, attrs);
             return;
         }
 
-        // Push style for this element (inherits from parent). Skip void tags.
-        if !VOID_TAGS.contains(&name) {
-            let parent = self.style_stack.last().cloned().unwrap_or_default();
-            let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
-                parent.merge(&InlineStyle::parse(&style_attr.1))
-            } else {
-                parent
-            };
-            self.style_stack.push(style);
+        // Push style for this element (inherits from parent)
+        let parent = self.style_stack.last().cloned().unwrap_or_default();
+        let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
+            parent.merge(&InlineStyle::parse(&style_attr.1))
+        } else {
+            parent
+        };
+        self.style_stack.push(style);
+        self.tag_stack.push(name.to_string());
+        *self.open_tags.entry(name.to_string()).or_insert(0) += 1;
+        if SKIP_TAGS.contains(&name) {
+            self.skip_depth += 1;
         }
+        self.handle_open_tag(name, attrs);
+    }
 
-        match name {
-            "h1" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
+    /// End the nearest open element of `name` and everything that is open in it
+    fn close_tag(&mut self, name: &str) {
+        if self.open_count(name) == 0 {
+            return;
+        }
+        let table_part = matches!(
+            name,
+            "table" | "thead" | "tbody" | "tfoot" | "tr" | "td" | "th" | "caption"
+        );
+        let found = self
+            .tag_stack
+            .iter()
+            .enumerate()
+            .rev()
+            .take_while(|(_, t)| {
+                // An end tag in a cell does not end what is outside of the cell,
+                // and one in a table nothing outside of the table
+                let t = t.as_str();
+                t == name
+                    || !(t == "table" && name != "body" && name != "html"
+                        || !table_part && matches!(t, "td" | "th"))
+            })
+            .find(|(_, t)| *t == name)
+            .map(|(i, _)| i);
+        if let Some(at) = found {
+            while self.tag_stack.len() > at {
+                self.close_top();
+            }
+        }
+    }
+
+    /// End every open element of the `ended` names that is not outside of a `boundary` element
+    fn close_implied(&mut self, ended: &[&str], boundary: &[&str]) {
+        if ended.iter().all(|t| self.open_count(t) == 0) {
+            return;
+        }
+        let outermost = self
+            .tag_stack
+            .iter()
+            .enumerate()
+            .rev()
+            .take_while(|(_, t)| !boundary.contains(&t.as_str()))
+            .filter(|(_, t)| ended.contains(&t.as_str()))
+            .last()
+            .map(|(i, _)| i);
+        if let Some(at) = outermost {
+            while self.tag_stack.len() > at {
+                self.close_top();
             }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                self.flush_text_buffer();
+        }
+    }
+
+    /// End the innermost open element
+    fn close_top(&mut self) {
+        let Some(name) = self.tag_stack.last().cloned() else {
+            return;
+        };
+        if SKIP_TAGS.contains(&name.as_str()) {
+            self.skip_depth -= 1;
+        } else {
+            self.handle_close_tag(&name);
+        }
+        self.tag_stack.pop();
+        self.style_stack.pop();
+        if let Some(count) = self.open_tags.get_mut(&name) {
+            *count -= 1;
+        }
+        // The end of these elements belongs to what is around them
+        match name.as_str() {
+            "table" if self.open_count("table") == 0 => {
+                self.flush_table();
             }
-            "p" | "div" | "article" | "section" | "main" | "li" => {}
-            "pre" => {
-                self.in_code = true;
-                self.code_content.clear();
+            "pre" if !self.is_inside_skip_tag() && self.open_count("pre") == 0 && !self.in_cell() => {
+                self.flush_code_block();
             }
-            "table" => {
-                self.in_table = true;
-                self.table_rows.clear();
+            "blockquote" if self.open_count("blockquote") == 0 => {
+                self.flush_blockquote();
             }
-            "blockquote" => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+            _ => {}
+        }
+    }
+
+    fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        if self.is_inside_skip_tag() {
+            return;
+        }
+
+        match name {
+            "h1" | "hr" if !self.is_captured() && self.open_count("table") == 0 => {
+                self.finalize_current_slide();
             }
-            "ul" | "ol" => {
-                self.in_list = true;
+            "ul" | "ol" if !self.is_captured() => {
                 self.list_items.clear();
             }
             "strong" | "b" => {
-                self.text_buffer.push_str("**");
+                self.markers.push(("**", false));
             }
             "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = true;
+                self.markers.push(("*", false));
             }
-            "title" => {}
             "img" => {
                 if self.options.include_images {
                     let alt = attrs.iter().find(|(k, _)| k == "alt").map(|(_, v)| v.as_str()).unwrap_or("");
@@ -747,11 +941,7 @@ impl HtmlSlideParser {
                 }
             }
             "br" => {
-                self.text_buffer.push('\n');
-            }
-            "hr" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
+                self.sink().push('\n');
             }
             _ => {}
         }
@@ -763,8 +953,8 @@ impl HtmlSlideParser {
         }
 
         match name {
-            "h1" => {
-                let title = std::mem::take(&mut self.text_buffer).trim().to_string();
+            "h1" if !self.is_captured() && self.open_count("table") == 0 => {
+                let title = self.take_text();
                 if self.presentation_title.is_none() && !title.is_empty() {
                     self.presentation_title = Some(title.clone());
                 }
@@ -778,65 +968,33 @@ impl HtmlSlideParser {
                     if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
                     if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
                 }
+                // What was put on a slide since the start tag stays there
+                self.finalize_current_slide();
                 self.current_slide = Some(slide);
             }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
+            "h2" | "h3" | "h4" | "h5" | "h6" if !self.is_captured() => {
+                let text = self.take_text();
                 if !text.is_empty() {
                     self.add_formatted_text(&format!("**{}**", text));
                 }
             }
-            "p" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "div" | "article" | "section" | "main" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "li" => {
-                let item = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !item.is_empty() {
-                    let item_style = self.active_style().and_then(|s| s.to_bullet_format());
-                    self.list_items.push((item, item_style));
-                }
-            }
-            "ul" | "ol" => {
-                self.flush_list_items();
-                self.in_list = false;
-            }
-            "pre" => {
-                self.in_code = false;
-                self.flush_code_block();
-            }
-            "table" => {
-                self.in_table = false;
-                self.flush_table();
-            }
-            "blockquote" => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
-            }
-            "th" | "td" => {
+            "th" | "td" if self.open_count("td") + self.open_count("th") == 1 => {
                 let cell = std::mem::take(&mut self.current_cell).trim().to_string();
                 self.current_row.push(cell);
             }
-            "tr" => {
+            "tr" if !self.in_cell() => {
                 if !self.current_row.is_empty() {
                     self.table_rows.push(std::mem::take(&mut self.current_row));
-                    self.current_row = Vec::new();
                 }
             }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
+            "strong" | "b" | "em" | "i" => {
+                if let Some((marker, true)) = self.markers.pop() {
+                    self.text_buffer.push_str(marker);
+                }
             }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = false;
+            "ul" | "ol" if !self.is_captured() => {
+                self.end_block();
+                self.flush_list_items();
             }
             "a" => {
                 // When closing an anchor tag, we have the link text in the buffer
@@ -844,13 +1002,9 @@ impl HtmlSlideParser {
                 // since PowerPoint hyperlink support requires more complex XML handling
                 self.current_href = None;
             }
+            _ if BLOCK_TAGS.contains(&name) => self.end_block(),
             _ => {}
         }
-
-        // Pop style stack for non-void tags (mirrors push in handle_open_tag)
-        if !VOID_TAGS.contains(&name) {
-            self.style_stack.pop();
-        }
     }
 
     fn handle_text(&mut self, text: &str) {
@@ -858,110 +1012,105 @@ impl HtmlSlideParser {
             return;
         }
 
-        if self.in_code {
-            self.code_content.push_str(text);
-        } else if self.in_table {
-            self.current_cell.push_str(text);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(text);
-        } else {
-            self.text_buffer.push_str(text);
+        if self.open_count("pre") > 0 {
+            self.sink().push_str(text);
+            return;
+        }
+        if !self.is_captured() && !text.trim().is_empty() {
+            for (marker, emitted) in &mut self.markers {
+                if !*emitted {
+                    self.text_buffer.push_str(marker);
+                    *emitted = true;
+                }
+            }
+        }
+        let sink = self.sink();
+        if !text.trim().is_empty() {
+            sink.push_str(text);
+        } else if !sink.is_empty() && !sink.ends_with(char::is_whitespace) {
+            // White space between elements separates words
+            sink.push(' ');
         }
     }
 
-    fn add_formatted_text(&mut self, text: &str) {
-        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+    /// Take the text that was collected, with the markers of the elements still open ended
+    fn take_text(&mut self) -> String {
+        for (marker, emitted) in self.markers.iter_mut().rev() {
+            if std::mem::take(emitted) {
+                self.text_buffer.push_str(marker);
             }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
+        std::mem::take(&mut self.text_buffer).trim().to_string()
+    }
+
+    fn add_formatted_text(&mut self, text: &str) {
+        self.add_bullet(text, || "Slide".to_string());
     }
 
     fn add_paragraph(&mut self, text: &str) {
+        let title = self.presentation_title.clone();
+        self.add_bullet(text, || title.unwrap_or_else(|| "Overview".to_string()));
+    }
+
+    /// Add a bullet in the active style to the current slide, or to a new one with this title
+    fn add_bullet(&mut self, text: &str, new_title: impl FnOnce() -> String) {
+        // List items that were collected come first
+        self.flush_list_items();
         let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            if slide.content.len() < self.options.max_bullets {
-                let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-                if let Some(ref f) = fmt {
-                    bp = bp.with_format(f.clone());
-                }
-                slide.content.push(text.to_string());
-                slide.bullets.push(bp);
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
-            let mut slide = SlideContent::new(&title);
+        self.push_bullet(text, fmt, new_title);
+    }
+
+    fn push_bullet(
+        &mut self,
+        text: &str,
+        fmt: Option<BulletTextFormat>,
+        new_title: impl FnOnce() -> String,
+    ) {
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new(&new_title()));
+        if slide.content.len() < self.options.max_bullets {
             let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+            if let Some(f) = fmt {
+                bp = bp.with_format(f);
             }
             slide.content.push(text.to_string());
             slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
     }
 
+    /// Put the collected text into the list it is in, or else on the slide as a paragraph
     fn flush_text_buffer(&mut self) {
-        let text = std::mem::take(&mut self.text_buffer);
-        let trimmed = text.trim().to_string();
-        if !trimmed.is_empty() {
-            self.add_paragraph(&trimmed);
+        let text = self.take_text();
+        if text.is_empty() {
+            return;
+        }
+        if self.in_list() {
+            let style = self.active_style().and_then(|s| s.to_bullet_format());
+            self.list_items.push((text, style));
+        } else {
+            self.add_paragraph(&text);
         }
     }
 
     fn flush_list_items(&mut self) {
-        let items = std::mem::take(&mut self.list_items);
-        if items.is_empty() {
-            return;
-        }
-
-        if let Some(ref mut slide) = self.current_slide {
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Key Points".to_string());
-            let mut slide = SlideContent::new(&title);
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-            self.current_slide = Some(slide);
+        let title = self.presentation_title.clone();
+        for (item, style) in std::mem::take(&mut self.list_items) {
+            self.push_bullet(&item, style, || {
+                title.clone().unwrap_or_else(|| "Key Points".to_string())
+            });
         }
     }
 
     fn flush_table(&mut self) {
-        if !self.options.include_tables || self.table_rows.is_empty() {
+        let rows = std::mem::take(&mut self.table_rows);
+        if !self.options.include_tables || rows.is_empty() {
             return;
         }
 
-        let rows = std::mem::take(&mut self.table_rows);
+        // A slide has one table: the next one goes on a slide of its own
+        if let Some(slide) = self.current_slide.take_if(|s| s.has_table) {
+            self.current_slide = Some(SlideContent::new(&format!("{} (continued)", slide.title)));
+            self.slides.push(slide);
+        }
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
         if let Some(ref mut slide) = self.current_slide {
@@ -976,12 +1125,13 @@ impl HtmlSlideParser {
     }
 
     fn flush_code_block(&mut self) {
-        if !self.options.include_code || self.code_content.is_empty() {
+        let code = std::mem::take(&mut self.code_content);
+        if !self.options.include_code || code.trim().is_empty() {
             return;
         }
 
-        let code = std::mem::take(&mut self.code_content);
-        let code_block = CodeBlock::new(code.trim(), "text");
+        // Only the line breaks around the code are not part of it
+        let code_block = CodeBlock::new(code.trim_start_matches(['\r', '\n']).trim_end(), "text");
 
         if let Some(ref mut slide) = self.current_slide {
             slide.code_blocks.push(code_block);
@@ -998,9 +1148,11 @@ impl HtmlSlideParser {
             return;
         }
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(text);
-        }
+        let title = self.presentation_title.clone();
+        let slide = self.current_slide.get_or_insert_with(|| {
+            SlideContent::new(title.as_deref().unwrap_or("Overview"))
+        });
+        slide.notes = Some(text);
     }
 
     fn finalize_current_slide(&mut self) {
-- 
2.43.0


From c6a246b2bae7c8ea1467ed2f9d9d77a65d525ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 43/81] fix: keep misnested formatting from ending HTML blocks

---
 src/import/html.rs | 72 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index f5d5306..490cafa 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -615,6 +615,14 @@ const BLOCK_TAGS: &[&str] = &[
     "table", "ul", "caption", "thead", "tbody", "tfoot", "tr", "td", "th",
 ];
 
+/// Tags that only format the text in them
+const FORMATTING_TAGS: &[&str] = &[
+    "a", "b", "big", "code", "em", "font", "i", "nobr", "s", "small", "strike", "strong", "tt", "u",
+];
+
+/// Formatting that is kept as markers in the text
+const MARKED_TAGS: &[&str] = &["strong", "b", "em", "i"];
+
 const HEADING_TAGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];
 
 /// Tags that a start tag of `name` ends when they are still open, and the tags the search
@@ -818,6 +826,8 @@ impl HtmlSlideParser {
             name,
             "table" | "thead" | "tbody" | "tfoot" | "tr" | "td" | "th" | "caption"
         );
+        let formatting = FORMATTING_TAGS.contains(&name);
+        let inline = !formatting && !BLOCK_TAGS.contains(&name) && !SKIP_TAGS.contains(&name);
         let found = self
             .tag_stack
             .iter()
@@ -825,18 +835,25 @@ impl HtmlSlideParser {
             .rev()
             .take_while(|(_, t)| {
                 // An end tag in a cell does not end what is outside of the cell,
-                // and one in a table nothing outside of the table
+                // one in a table nothing outside of the table, and one of an inline element no block
                 let t = t.as_str();
                 t == name
-                    || !(t == "table" && name != "body" && name != "html"
-                        || !table_part && matches!(t, "td" | "th"))
+                    || matches!(name, "body" | "html")
+                    || !(t == "table"
+                        || !table_part && matches!(t, "td" | "th" | "caption")
+                        || inline && (BLOCK_TAGS.contains(&t) || SKIP_TAGS.contains(&t)))
             })
             .find(|(_, t)| *t == name)
             .map(|(i, _)| i);
-        if let Some(at) = found {
-            while self.tag_stack.len() > at {
-                self.close_top();
+        match found {
+            // Formatting ends where it says, whatever else is still open
+            Some(at) if formatting => self.end_formatting(at),
+            Some(at) => {
+                while self.tag_stack.len() > at {
+                    self.close_top();
+                }
             }
+            None => {}
         }
     }
 
@@ -861,11 +878,43 @@ impl HtmlSlideParser {
         }
     }
 
+    /// End the open formatting element at this place of the stack, and nothing else
+    fn end_formatting(&mut self, at: usize) {
+        let name = self.tag_stack.remove(at);
+        self.style_stack.remove(at);
+        if let Some(count) = self.open_tags.get_mut(&name) {
+            *count -= 1;
+        }
+        if self.tag_stack[..at].iter().any(|t| SKIP_TAGS.contains(&t.as_str())) {
+            return;
+        }
+        match name.as_str() {
+            "strong" | "b" | "em" | "i" => {
+                let outer = self.tag_stack[..at].iter().filter(|t| MARKED_TAGS.contains(&t.as_str()));
+                let index = outer.count();
+                if let (marker, true) = self.markers.remove(index) {
+                    self.text_buffer.push_str(marker);
+                }
+            }
+            "a" => {
+                // When closing an anchor tag, we have the link text in the buffer
+                // and the href in current_href. For now, we'll just clear the href
+                // since PowerPoint hyperlink support requires more complex XML handling
+                self.current_href = None;
+            }
+            _ => {}
+        }
+    }
+
     /// End the innermost open element
     fn close_top(&mut self) {
         let Some(name) = self.tag_stack.last().cloned() else {
             return;
         };
+        if FORMATTING_TAGS.contains(&name.as_str()) {
+            self.end_formatting(self.tag_stack.len() - 1);
+            return;
+        }
         if SKIP_TAGS.contains(&name.as_str()) {
             self.skip_depth -= 1;
         } else {
@@ -987,21 +1036,10 @@ impl HtmlSlideParser {
                     self.table_rows.push(std::mem::take(&mut self.current_row));
                 }
             }
-            "strong" | "b" | "em" | "i" => {
-                if let Some((marker, true)) = self.markers.pop() {
-                    self.text_buffer.push_str(marker);
-                }
-            }
             "ul" | "ol" if !self.is_captured() => {
                 self.end_block();
                 self.flush_list_items();
             }
-            "a" => {
-                // When closing an anchor tag, we have the link text in the buffer
-                // and the href in current_href. For now, we'll just clear the href
-                // since PowerPoint hyperlink support requires more complex XML handling
-                self.current_href = None;
-            }
             _ if BLOCK_TAGS.contains(&name) => self.end_block(),
             _ => {}
         }
-- 
2.43.0


From 4da261d286cad0c291f6b09167a287c08a5ae2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 44/81] fix: draw every node and relation of Mermaid diagrams,
 in order

---
 src/cli/markdown/mermaid/class_diagram.rs | 123 ++++++++---
 src/cli/markdown/mermaid/er_diagram.rs    |  76 +++----
 src/cli/markdown/mermaid/flowchart.rs     | 253 ++++++++++++++--------
 src/cli/markdown/mermaid/gantt.rs         |  39 ++--
 src/cli/markdown/mermaid/gitgraph.rs      |  53 ++---
 src/cli/markdown/mermaid/journey.rs       |  28 ++-
 src/cli/markdown/mermaid/mindmap.rs       |  42 +++-
 src/cli/markdown/mermaid/mod.rs           |  21 +-
 src/cli/markdown/mermaid/pie.rs           |  22 +-
 src/cli/markdown/mermaid/quadrant.rs      |  61 ++++--
 src/cli/markdown/mermaid/sequence.rs      |  27 ++-
 src/cli/markdown/mermaid/state_diagram.rs |   8 +-
 src/cli/markdown/mermaid/timeline.rs      |  22 +-
 src/cli/markdown/mermaid/types.rs         |  24 ++
 src/cli/markdown/parser.rs                |  15 ++
 15 files changed, 531 insertions(+), 283 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index b5335bc..7f1e95f 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -1,18 +1,51 @@
 //! Class diagram parsing and rendering
 
-use super::types::DiagramElements;
+use super::types::{after_keyword, steps, DiagramElements};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// A class: its name, attributes and methods
+type Class = (String, Vec<String>, Vec<String>);
+
+/// The index of the class of this name, which is added if it is new
+fn declare(classes: &mut Vec<Class>, name: &str) -> usize {
+    classes.iter().position(|c| c.0 == name).unwrap_or_else(|| {
+        classes.push((name.to_string(), Vec::new(), Vec::new()));
+        classes.len() - 1
+    })
+}
+
+fn is_class_name(name: &str) -> bool {
+    !name.is_empty() && !name.contains(char::is_whitespace)
+}
+
+/// Parse a relation such as `A <|-- B`, `A "1" --> "*" B : label`: its two classes and label
+fn parse_relation(line: &str) -> Option<(String, String, String)> {
+    let (line, label) = line.split_once(" : ").unwrap_or((line, ""));
+    let (start, end) = ["--", ".."]
+        .iter()
+        .filter_map(|core| line.find(core).map(|at| (at, at + 2)))
+        .min()?;
+    // An `o` next to a name is part of the name
+    let left = line[..start].trim_end_matches(['<', '|', '*']);
+    let left = left.strip_suffix('o').filter(|l| l.ends_with([' ', '"'])).unwrap_or(left);
+    let right = line[end..].trim_start_matches(['-', '.']).trim_start_matches(['>', '|', '*']);
+    let right = right.strip_prefix('o').filter(|r| r.starts_with([' ', '"'])).unwrap_or(right);
+    // How many take part stands in quotes beside the name
+    let name = |s: &str| s.split('"').step_by(2).collect::<String>().trim().to_string();
+    let (from, to) = (name(left), name(right));
+    (is_class_name(&from) && is_class_name(&to)).then(|| (from, to, label.trim().to_string()))
+}
+
 /// Generate shapes and connectors for a class diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut classes: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
+    let mut classes: Vec<Class> = Vec::new();
     let mut current_class = String::new();
     let mut current_attrs: Vec<String> = Vec::new();
     let mut current_methods: Vec<String> = Vec::new();
@@ -38,11 +71,9 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             current_attrs.clear();
             current_methods.clear();
         } else if line == "}" && in_class {
-            classes.push((
-                current_class.clone(),
-                current_attrs.clone(),
-                current_methods.clone(),
-            ));
+            let at = declare(&mut classes, &current_class);
+            classes[at].1.append(&mut current_attrs);
+            classes[at].2.append(&mut current_methods);
             in_class = false;
         } else if in_class {
             if line.contains('(') {
@@ -50,28 +81,35 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             } else if !line.is_empty() {
                 current_attrs.push(line.to_string());
             }
-        } else if line.contains("<|--") || line.contains("-->") || line.contains("--") {
-            let rel_type = if line.contains("<|--") {
-                "extends"
-            } else if line.contains("-->") {
-                "uses"
-            } else {
-                "associates"
-            };
-
-            let parts: Vec<&str> = line
-                .split(|c| c == '<' || c == '|' || c == '-' || c == '>')
-                .collect();
-            let parts: Vec<&str> = parts.into_iter().filter(|s| !s.is_empty()).collect();
-            if parts.len() >= 2 {
-                relationships.push((
-                    parts[0].trim().to_string(),
-                    parts[parts.len() - 1].trim().to_string(),
-                    rel_type.to_string(),
-                ));
+        } else if let Some((from, to, label)) = parse_relation(line) {
+            relationships.push((from, to, label));
+        } else if let Some(name) = after_keyword(line, "class") {
+            declare(&mut classes, name);
+        } else if let Some((name, member)) = line.split_once(':') {
+            // A member of a class: `Name : member`
+            let (name, member) = (name.trim(), member.trim());
+            if is_class_name(name) && !member.is_empty() {
+                let at = declare(&mut classes, name);
+                if member.contains('(') {
+                    classes[at].2.push(member.to_string());
+                } else {
+                    classes[at].1.push(member.to_string());
+                }
             }
         }
     }
+    if in_class {
+        let at = declare(&mut classes, &current_class);
+        classes[at].1.append(&mut current_attrs);
+        classes[at].2.append(&mut current_methods);
+    }
+
+    // A class that is only named in a relation is drawn too
+    for (from, to, _) in &relationships {
+        for name in [from, to] {
+            declare(&mut classes, name);
+        }
+    }
 
     // Layout parameters
     let start_x = 500_000u32;
@@ -86,8 +124,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shape_id = 10u32;
 
     for (i, (class_name, attrs, methods)) in classes.iter().enumerate() {
-        let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * 2_000_000;
+        let x = start_x + steps(i % 3, h_spacing);
+        let y = start_y + steps(i / 3, 2_000_000);
         class_positions.insert(class_name.clone(), (x, y));
         class_shape_ids.insert(class_name.clone(), shape_id);
 
@@ -106,7 +144,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         } else {
             attrs.join("\n")
         };
-        let attrs_height = (attrs.len().max(1) as u32) * member_height;
+        let attrs_height = steps(attrs.len().max(1), member_height);
         let attrs_shape = Shape::new(
             ShapeType::Rectangle,
             x,
@@ -127,7 +165,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         } else {
             methods.join("\n")
         };
-        let methods_height = (methods.len().max(1) as u32) * member_height;
+        let methods_height = steps(methods.len().max(1), member_height);
         let methods_shape = Shape::new(
             ShapeType::Rectangle,
             x,
@@ -144,7 +182,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // Create connectors with shape anchoring
-    for (from, to, _rel_type) in &relationships {
+    for (from, to, label) in &relationships {
         if let (Some(&(from_x, from_y)), Some(&(to_x, to_y))) =
             (class_positions.get(from), class_positions.get(to))
         {
@@ -180,6 +218,29 @@ pub fn generate_elements(code: &str) -> DiagramElements {
                 connector = connector.connect_end(id, end_site);
             }
 
+            // Create label shape if label exists
+            if !label.is_empty() {
+                let label_width = 1_000_000u32;
+                let label_height = 250_000u32;
+                let mid_x = (from_x + to_x + class_width) / 2;
+                let mid_y = (from_y + to_y + header_height) / 2;
+
+                let label_shape = Shape::new(
+                    ShapeType::RoundedRectangle,
+                    mid_x.saturating_sub(label_width / 2),
+                    mid_y.saturating_sub(label_height / 2),
+                    label_width,
+                    label_height,
+                )
+                .with_id(shape_id)
+                .with_fill(ShapeFill::new("FFFFFF"))
+                .with_line(ShapeLine::new("2F5496", 1))
+                .with_text(label);
+
+                shapes.push(label_shape);
+                shape_id += 1;
+            }
+
             connectors.push(connector);
         }
     }
diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..3d765ab 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -1,18 +1,41 @@
 //! ER diagram parsing and rendering
 
-use super::types::DiagramElements;
+use super::types::{steps, DiagramElements};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// An entity: its name and attributes
+type Entity = (String, Vec<String>);
+
+/// The index of the entity of this name, which is added if it is new
+fn declare(entities: &mut Vec<Entity>, name: &str) -> usize {
+    entities.iter().position(|e| e.0 == name).unwrap_or_else(|| {
+        entities.push((name.to_string(), Vec::new()));
+        entities.len() - 1
+    })
+}
+
+/// Parse a relation such as `CUSTOMER ||--o{ ORDER : places`: its two entities and label
+fn parse_relation(line: &str) -> Option<(String, String, String)> {
+    let (relation, label) = line.split_once(':').unwrap_or((line, ""));
+    let at = ["--", ".."].iter().filter_map(|core| relation.find(core)).min()?;
+    let (left, right) = (&relation[..at], &relation[at + 2..]);
+    let from = ["|o", "||", "}o", "}|"].iter().find_map(|c| left.strip_suffix(c))?.trim();
+    let to = ["o|", "||", "o{", "|{"].iter().find_map(|c| right.strip_prefix(c))?.trim();
+    let label = label.trim().trim_matches('"').trim_matches('\'');
+    (!from.is_empty() && !to.is_empty())
+        .then(|| (from.to_string(), to.to_string(), label.to_string()))
+}
+
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    let mut entities: Vec<Entity> = Vec::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
@@ -22,47 +45,18 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.contains("||") || line.contains("}|") || line.contains("|{") || line.contains("o{")
-        {
-            // Extract relationship label after colon
-            let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
-                let label_part = line[colon_pos + 1..].trim();
-                // Remove quotes if present
-                let label = label_part.trim_matches('"').trim_matches('\'').to_string();
-                (&line[..colon_pos], label)
-            } else {
-                (line, String::new())
-            };
-
-            let parts: Vec<&str> = rel_part
-                .split(|c: char| c == '|' || c == '{' || c == '}' || c == 'o' || c == '-')
-                .collect();
-            let parts: Vec<&str> = parts
-                .into_iter()
-                .filter(|s| !s.is_empty() && s.chars().any(|c| c.is_alphabetic()))
-                .collect();
-            if parts.len() >= 2 {
-                let e1 = parts[0].trim().to_string();
-                let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
-                }
-                relationships.push((e1, e2, label));
-            }
+        if let Some((e1, e2, label)) = parse_relation(line).filter(|_| current_entity.is_empty()) {
+            declare(&mut entities, &e1);
+            declare(&mut entities, &e2);
+            relationships.push((e1, e2, label));
         } else if line.contains('{') {
             current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
-            }
+            declare(&mut entities, &current_entity);
         } else if line == "}" {
             current_entity.clear();
         } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
-                attrs.push(line.to_string());
-            }
+            let at = declare(&mut entities, &current_entity);
+            entities[at].1.push(line.to_string());
         }
     }
 
@@ -80,8 +74,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shape_id = 10u32;
 
     for (i, (entity_name, attrs)) in entities.iter().enumerate() {
-        let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * v_spacing;
+        let x = start_x + steps(i % 3, h_spacing);
+        let y = start_y + steps(i / 3, v_spacing);
         entity_positions.insert(entity_name.clone(), (x, y));
         entity_shape_ids.insert(entity_name.clone(), shape_id);
 
@@ -94,7 +88,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         shape_id += 1;
 
         let attrs_text = attrs.join("\n");
-        let attrs_box_height = (attrs.len().max(1) as u32) * attr_height;
+        let attrs_box_height = steps(attrs.len().max(1), attr_height);
         let attrs_shape = Shape::new(
             ShapeType::Rectangle,
             x,
diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..c829183 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -27,10 +27,11 @@ pub fn parse(code: &str) -> Flowchart {
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
-    let mut current_subgraph: Option<Subgraph> = None;
+    // The subgraphs that are open, by their index
+    let mut open_subgraphs: Vec<usize> = Vec::new();
 
     for line in lines {
         let line = line.trim();
@@ -39,14 +40,10 @@ pub fn parse(code: &str) -> Flowchart {
         }
 
         // Handle subgraph start
-        if line.starts_with("subgraph") {
-            let name = line
-                .strip_prefix("subgraph")
-                .unwrap_or("")
-                .trim()
-                .to_string();
-            current_subgraph = Some(Subgraph {
-                name,
+        if let Some(name) = after_keyword(line, "subgraph") {
+            open_subgraphs.push(subgraphs.len());
+            subgraphs.push(Subgraph {
+                name: name.to_string(),
                 nodes: Vec::new(),
             });
             continue;
@@ -54,99 +51,159 @@ pub fn parse(code: &str) -> Flowchart {
 
         // Handle subgraph end
         if line == "end" {
-            if let Some(sg) = current_subgraph.take() {
-                subgraphs.push(sg);
-            }
+            open_subgraphs.pop();
             continue;
         }
 
-        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text]
-        if let Some((from_part, rest)) = split_connection(line) {
-            let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
-
-            // Parse from node
-            let (from_id, from_node) = parse_node_def(&from_part);
-            if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&from_id) {
-                        sg.nodes.push(from_id.clone());
-                    }
-                }
-            }
-
-            // Parse to node (may have label on arrow)
-            let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
-            let (to_id, to_node) = parse_node_def(&to_part_clean);
-            if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&to_id) {
-                        sg.nodes.push(to_id.clone());
-                    }
-                }
-            }
-
-            connections.push(FlowConnection {
-                from: from_id,
-                to: to_id,
-                label: arrow_label,
-                arrow_type,
-            });
-        } else {
-            // Standalone node definition
-            let (id, node) = parse_node_def(line);
-            if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&id) {
-                        sg.nodes.push(id);
-                    }
-                }
+        // Parse connections: A --> B, A --> |Label| B, A -- Label --> B, A[Text] --> B[Text] --> C
+        let (first, links) = split_links(line.trim_end_matches(';'));
+        let mut from = add_nodes(first, &mut nodes, &mut subgraphs, open_subgraphs.last().copied());
+        for (arrow_type, label, to_part) in links {
+            let to = add_nodes(&to_part, &mut nodes, &mut subgraphs, open_subgraphs.last().copied());
+            for (f, t) in from.iter().flat_map(|f| to.iter().map(move |t| (f, t))) {
+                connections.push(FlowConnection {
+                    from: f.clone(),
+                    to: t.clone(),
+                    label: label.clone(),
+                    arrow_type,
+                });
             }
+            from = to;
         }
     }
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
 }
 
-/// Split line at connection arrow
-fn split_connection(line: &str) -> Option<(String, String)> {
-    for arrow in ["==>", "-.->", "-->", "---", "->"] {
-        if let Some(pos) = line.find(arrow) {
-            let from = line[..pos].trim().to_string();
-            let rest = line[pos..].to_string();
-            return Some((from, rest));
+/// Add the nodes that `part` names (joined by `&`) and return their ids
+fn add_nodes(
+    part: &str,
+    nodes: &mut Vec<FlowNode>,
+    subgraphs: &mut [Subgraph],
+    subgraph: Option<usize>,
+) -> Vec<String> {
+    let mut ids = Vec::new();
+    for one in split_outside(part, '&') {
+        let (id, node) = parse_node_def(one);
+        if let Some(node) = node {
+            match nodes.iter_mut().find(|n| n.id == id) {
+                // A text given later than the first use of the node counts
+                Some(known) if node.label != node.id => *known = node,
+                Some(_) => {}
+                None => nodes.push(node),
+            }
+            // A node is drawn once, in the subgraph that has it first
+            if let Some(at) = subgraph
+                && !subgraphs.iter().any(|sg| sg.nodes.contains(&id))
+            {
+                subgraphs[at].nodes.push(id.clone());
+            }
         }
+        ids.push(id);
     }
-    None
+    ids
 }
 
-/// Parse arrow type and get the rest of the string
-fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
-    if s.starts_with("==>") {
-        (ArrowStyle::Thick, s[3..].trim().to_string())
-    } else if s.starts_with("-.->") {
-        (ArrowStyle::Dotted, s[4..].trim().to_string())
-    } else if s.starts_with("-->") {
-        (ArrowStyle::Arrow, s[3..].trim().to_string())
-    } else if s.starts_with("---") {
-        (ArrowStyle::Open, s[3..].trim().to_string())
-    } else if s.starts_with("->") {
-        (ArrowStyle::Arrow, s[2..].trim().to_string())
-    } else {
-        (ArrowStyle::Arrow, s.to_string())
+/// The byte positions of `line` that are in no bracket, quotation or `|label|`
+fn outside(line: &str) -> Vec<bool> {
+    let mut open: Vec<char> = Vec::new();
+    let mut out = Vec::with_capacity(line.len());
+    for c in line.chars() {
+        let was_open = !open.is_empty();
+        match (c, open.last()) {
+            ('"', Some('"')) | ('|', Some('|')) => {
+                open.pop();
+            }
+            (_, Some('"')) => {}
+            ('"' | '|', _) => open.push(c),
+            (_, Some('|')) => {}
+            ('[', _) => open.push(']'),
+            ('(', _) => open.push(')'),
+            ('{', _) => open.push('}'),
+            (c, Some(&end)) if c == end => {
+                open.pop();
+            }
+            _ => {}
+        }
+        let is_outside = !was_open && open.is_empty();
+        out.extend(std::iter::repeat_n(is_outside, c.len_utf8()));
     }
+    if open.is_empty() { out } else { vec![true; line.len()] }
+}
+
+/// Split `s` at the `sep`s that are in no bracket, quotation or label
+fn split_outside(s: &str, sep: char) -> Vec<&str> {
+    let outside = outside(s);
+    let mut parts = Vec::new();
+    let mut start = 0;
+    for (i, c) in s.char_indices() {
+        if c == sep && outside[i] {
+            parts.push(s[start..i].trim());
+            start = i + c.len_utf8();
+        }
+    }
+    parts.push(s[start..].trim());
+    parts
+}
+
+/// Split a line into its first nodes and, for each link, its style, label and nodes
+fn split_links(line: &str) -> (&str, Vec<(ArrowStyle, Option<String>, String)>) {
+    let outside = outside(line);
+    let bytes = line.as_bytes();
+    // The runs of link characters, such as `-->`
+    let mut runs: Vec<(usize, usize)> = Vec::new();
+    let mut i = 0;
+    while i < bytes.len() {
+        let end = i + bytes[i..]
+            .iter()
+            .zip(&outside[i..])
+            .take_while(|(b, o)| matches!(b, b'-' | b'=' | b'.' | b'<' | b'>') && **o)
+            .count();
+        if end >= i + 2 && line[i..end].contains(['-', '=']) {
+            runs.push((i, end));
+        }
+        i = end.max(i + 1);
+    }
+
+    let first = line[..runs.first().map_or(line.len(), |r| r.0)].trim();
+    let mut links = Vec::new();
+    let mut k = 0;
+    while k < runs.len() {
+        let (start, mut end) = runs[k];
+        let mut run = &line[start..end];
+        let mut label = None;
+        // `A -- label --> B`: the link begins, has its label and goes on
+        if matches!(run, "--" | "==" | "-.") && k + 1 < runs.len() {
+            label = Some(line[end..runs[k + 1].0].trim().to_string());
+            k += 1;
+            end = runs[k].1;
+            run = &line[runs[k].0..end];
+        }
+        let style = if run.contains('=') {
+            ArrowStyle::Thick
+        } else if run.contains('.') {
+            ArrowStyle::Dotted
+        } else if run.contains('>') {
+            ArrowStyle::Arrow
+        } else {
+            ArrowStyle::Open
+        };
+        let to = &line[end..runs.get(k + 1).map_or(line.len(), |r| r.0)];
+        let (to, piped) = extract_arrow_label(to.trim());
+        links.push((style, piped.or(label), to));
+        k += 1;
+    }
+    (first, links)
 }
 
 /// Extract arrow label like |text|
 fn extract_arrow_label(s: &str) -> (String, Option<String>) {
-    if let Some(start) = s.find('|') {
+    if let Some(start) = s.find('|').filter(|&p| p == 0) {
         if let Some(end) = s[start + 1..].find('|') {
             let label = s[start + 1..start + 1 + end].to_string();
             let rest = s[start + 2 + end..].trim().to_string();
@@ -159,6 +216,12 @@ fn extract_arrow_label(s: &str) -> (String, Option<String>) {
 /// Parse a node definition like A[Text] or B(Text) or C{Text}
 fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
     let s = s.trim();
+    // A class may follow: A:::name
+    let s = match (s.rfind(":::"), s.rfind([']', ')', '}'])) {
+        (Some(class), end) if end.is_none_or(|e| e < class) => s[..class].trim(),
+        _ => s,
+    };
+    let first_open = s.find(['[', '(', '{']);
 
     // Try different bracket types
     for (open, close, shape) in [
@@ -169,10 +232,12 @@ fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
         ("(", ")", NodeShape::RoundedRect),
         ("{", "}", NodeShape::Diamond),
     ] {
-        if let Some(start) = s.find(open) {
+        if let Some(start) = first_open.filter(|&at| s[at..].starts_with(open)) {
             let id = s[..start].trim().to_string();
-            if let Some(end) = s[start + open.len()..].find(close) {
-                let label = s[start + open.len()..start + open.len() + end].to_string();
+            if let Some(end) = s[start + open.len()..].rfind(close) {
+                let label = s[start + open.len()..start + open.len() + end].trim();
+                let label = label.strip_prefix('"').and_then(|l| l.strip_suffix('"')).unwrap_or(label);
+                let label = label.to_string();
                 return (id.clone(), Some(FlowNode { id, label, shape }));
             }
         }
@@ -180,7 +245,7 @@ fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
 
     // Plain node ID without brackets
     let id = s.to_string();
-    if !id.is_empty() && id.chars().all(|c| c.is_alphanumeric() || c == '_') {
+    if !id.is_empty() && id.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '.')) {
         return (
             id.clone(),
             Some(FlowNode {
@@ -235,7 +300,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
         for (sg_idx, subgraph) in flowchart.subgraphs.iter().enumerate() {
             let sg_width = node_width + 400_000;
             let title_height = 250_000u32;
-            let sg_height = (subgraph.nodes.len() as u32) * v_spacing + 400_000 + title_height;
+            let sg_height = steps(subgraph.nodes.len(), v_spacing) + 400_000 + title_height;
             let sg_x = subgraph_x;
             let sg_y = subgraph_start_y;
 
@@ -263,7 +328,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
             for (node_idx, node_id) in subgraph.nodes.iter().enumerate() {
                 if let Some(node) = flowchart.nodes.iter().find(|n| &n.id == node_id) {
                     let x = sg_x + 200_000;
-                    let y = sg_y + title_height + 200_000 + (node_idx as u32) * v_spacing;
+                    let y = sg_y + title_height + 200_000 + steps(node_idx, v_spacing);
 
                     node_positions.insert(node.id.clone(), (x, y));
                     node_shape_ids.insert(node.id.clone(), shape_id);
@@ -275,7 +340,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
                 }
             }
 
-            subgraph_x += sg_width + 600_000;
+            subgraph_x = advance(subgraph_x, sg_width + 600_000);
         }
 
         // Layout any nodes not in subgraphs
@@ -293,7 +358,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
                 element_bounds.push((x, y, node_width, node_height));
                 shape_id += 1;
 
-                orphan_y += v_spacing;
+                orphan_y = advance(orphan_y, v_spacing);
             }
         }
     } else {
@@ -308,13 +373,13 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
 
             let (x, y) = if is_horizontal {
                 (
-                    start_x + (col as u32) * h_spacing,
-                    start_y + (row as u32) * v_spacing,
+                    start_x + steps(col, h_spacing),
+                    start_y + steps(row, v_spacing),
                 )
             } else {
                 (
-                    start_x + (col as u32) * h_spacing,
-                    start_y + (i as u32) * v_spacing,
+                    start_x + steps(col, h_spacing),
+                    start_y + steps(i, v_spacing),
                 )
             };
 
@@ -409,8 +474,8 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
 
                 shapes.push(label_shape);
                 element_bounds.push((
-                    mid_x - label_width / 2,
-                    mid_y - label_height / 2,
+                    mid_x.saturating_sub(label_width / 2),
+                    mid_y.saturating_sub(label_height / 2),
                     label_width,
                     label_height,
                 ));
diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index d37e14d..60039d2 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -1,5 +1,6 @@
 //! Gantt chart diagram parsing and rendering
 
+use super::types::{advance, after_keyword, steps};
 use crate::generator::{Shape, ShapeFill, ShapeType};
 
 /// Generate shapes for a Gantt chart
@@ -16,21 +17,18 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             continue;
         }
 
-        if line.starts_with("title") {
-            title = line.strip_prefix("title").unwrap_or("").trim().to_string();
-        } else if line.starts_with("section") {
-            if !current_section.is_empty() {
+        if let Some(text) = after_keyword(line, "title") {
+            title = text.to_string();
+        } else if let Some(name) = after_keyword(line, "section") {
+            // Tasks may come before the first section
+            if !current_section.is_empty() || !current_tasks.is_empty() {
                 sections.push((current_section.clone(), current_tasks.clone()));
                 current_tasks.clear();
             }
-            current_section = line
-                .strip_prefix("section")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+            current_section = name.to_string();
         } else if line.contains(':')
-            && !line.starts_with("dateFormat")
-            && !line.starts_with("axisFormat")
+            && after_keyword(line, "dateFormat").is_none()
+            && after_keyword(line, "axisFormat").is_none()
         {
             if let Some((task_name, _rest)) = line.split_once(':') {
                 let duration = 3u32;
@@ -39,7 +37,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
     }
 
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_tasks.is_empty() {
         sections.push((current_section, current_tasks));
     }
 
@@ -62,11 +60,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let colors = ["4472C4", "ED7D31", "70AD47", "FFC000", "5B9BD5"];
 
     for (section_idx, (section_name, tasks)) in sections.iter().enumerate() {
-        let section_shape = Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
-            .with_fill(ShapeFill::new("E0E0E0"))
-            .with_text(section_name);
-        shapes.push(section_shape);
-        y += section_height + 50_000;
+        if !section_name.is_empty() {
+            let section_shape =
+                Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
+                    .with_fill(ShapeFill::new("E0E0E0"))
+                    .with_text(section_name);
+            shapes.push(section_shape);
+            y = advance(y, section_height + 50_000);
+        }
 
         for (task_idx, (task_name, duration)) in tasks.iter().enumerate() {
             let label_shape =
@@ -74,7 +75,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                     .with_text(task_name);
             shapes.push(label_shape);
 
-            let bar_x = start_x + label_width + 100_000 + (task_idx as u32) * 200_000;
+            let bar_x = start_x + label_width + 100_000 + steps(task_idx, 200_000);
             let bar_width = duration * bar_width_per_unit;
             let color = colors[(section_idx + task_idx) % colors.len()];
 
@@ -88,7 +89,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             .with_fill(ShapeFill::new(color));
             shapes.push(bar_shape);
 
-            y += task_spacing;
+            y = advance(y, task_spacing);
         }
     }
 
diff --git a/src/cli/markdown/mermaid/gitgraph.rs b/src/cli/markdown/mermaid/gitgraph.rs
index bf4ba66..73821da 100644
--- a/src/cli/markdown/mermaid/gitgraph.rs
+++ b/src/cli/markdown/mermaid/gitgraph.rs
@@ -1,6 +1,6 @@
 //! Git graph diagram rendering
 
-use super::types::{create_labeled_dot, LabelPosition};
+use super::types::{after_keyword, create_labeled_dot, steps, LabelPosition};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a git graph
@@ -13,45 +13,40 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
-        if trimmed.is_empty() {
+        if trimmed.is_empty() || trimmed.starts_with("%%") {
             continue;
         }
 
-        if trimmed.starts_with("commit") {
+        if after_keyword(trimmed, "commit").is_some() {
             // Parse: commit id: "message"
             let id = if trimmed.contains("id:") {
-                let parts: Vec<&str> = trimmed.split("id:").collect();
-                if parts.len() > 1 {
-                    parts[1].trim().trim_matches('"').to_string()
-                } else {
-                    format!("C{}", commit_count)
+                let id = trimmed.split_once("id:").map_or("", |(_, id)| id.trim());
+                match id.strip_prefix('"').and_then(|id| id.split_once('"')) {
+                    // Other attributes may follow the id
+                    Some((quoted, _)) => quoted.to_string(),
+                    None => id.trim_matches('"').to_string(),
                 }
             } else {
                 format!("C{}", commit_count)
             };
             commits.push((id, current_branch.clone(), commit_count));
             commit_count += 1;
-        } else if trimmed.starts_with("branch") {
-            let branch_name = trimmed
-                .strip_prefix("branch")
-                .unwrap_or("")
-                .trim()
-                .to_string();
-            if !branch_name.is_empty() && !branches.contains(&branch_name) {
-                branches.push(branch_name);
+        } else if let Some(branch_name) = after_keyword(trimmed, "branch") {
+            // A new branch is also the one that is worked on from here
+            if !branch_name.is_empty() {
+                current_branch = branch_name.to_string();
+            }
+            if !branch_name.is_empty() && !branches.contains(&current_branch) {
+                branches.push(branch_name.to_string());
             }
-        } else if trimmed.starts_with("checkout") {
-            let branch_name = trimmed
-                .strip_prefix("checkout")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+        } else if let Some(branch_name) =
+            after_keyword(trimmed, "checkout").or_else(|| after_keyword(trimmed, "switch"))
+        {
             if !branch_name.is_empty() {
-                current_branch = branch_name;
+                current_branch = branch_name.to_string();
             }
-        } else if trimmed.starts_with("merge") {
+        } else if let Some(merge_from) = after_keyword(trimmed, "merge") {
             // Merge creates a commit on current branch
-            let merge_from = trimmed.strip_prefix("merge").unwrap_or("").trim();
             commits.push((
                 format!("Merge {}", merge_from),
                 current_branch.clone(),
@@ -73,7 +68,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     // Draw branch lines first (as background)
     for (i, branch) in branches.iter().enumerate() {
-        let y = start_y + (i as u32) * branch_spacing;
+        let y = start_y + steps(i, branch_spacing);
         let color = branch_colors[i % branch_colors.len()];
 
         // Branch label
@@ -90,7 +85,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         );
 
         // Branch line (simplified as rectangle)
-        let line_length = (commit_count.max(1) as u32) * commit_spacing + 200_000;
+        let line_length = steps(commit_count.max(1) as usize, commit_spacing) + 200_000;
         shapes.push(
             Shape::new(
                 ShapeType::Rectangle,
@@ -106,8 +101,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     // Draw commits with separate label shapes using helper
     for (id, branch, pos) in &commits {
         let branch_idx = branches.iter().position(|b| b == branch).unwrap_or(0);
-        let x = start_x + (*pos) * commit_spacing;
-        let y = start_y + (branch_idx as u32) * branch_spacing - commit_size / 2;
+        let x = start_x + steps(*pos as usize, commit_spacing);
+        let y = start_y + steps(branch_idx, branch_spacing) - commit_size / 2;
         let color = branch_colors[branch_idx % branch_colors.len()];
 
         shapes.extend(create_labeled_dot(
diff --git a/src/cli/markdown/mermaid/journey.rs b/src/cli/markdown/mermaid/journey.rs
index 90687f5..849b3d0 100644
--- a/src/cli/markdown/mermaid/journey.rs
+++ b/src/cli/markdown/mermaid/journey.rs
@@ -1,31 +1,31 @@
 //! Journey diagram (user journey) rendering
 
+use super::types::{advance, after_keyword, title_shape};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a journey diagram
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut sections: Vec<(String, Vec<(String, u8)>)> = Vec::new();
+    let mut title = String::new();
     let mut current_section = String::new();
     let mut current_items: Vec<(String, u8)> = Vec::new();
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
-        if trimmed.is_empty() || trimmed.starts_with("title") {
+        if trimmed.is_empty() || trimmed.starts_with("%%") {
             continue;
         }
 
-        if trimmed.starts_with("section") {
-            // Save previous section
-            if !current_section.is_empty() {
+        if let Some(text) = after_keyword(trimmed, "title") {
+            title = text.to_string();
+        } else if let Some(name) = after_keyword(trimmed, "section") {
+            // Save previous section (tasks may come before the first one)
+            if !current_section.is_empty() || !current_items.is_empty() {
                 sections.push((current_section.clone(), current_items.clone()));
                 current_items.clear();
             }
-            current_section = trimmed
-                .strip_prefix("section")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+            current_section = name.to_string();
         } else if trimmed.contains(':') {
             // Parse item: "Task name: score: Actor"
             let parts: Vec<&str> = trimmed.split(':').collect();
@@ -38,7 +38,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Save last section
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_items.is_empty() {
         sections.push((current_section, current_items));
     }
 
@@ -49,6 +49,10 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let item_height = 400_000u32;
     let section_gap = 200_000u32;
 
+    if !title.is_empty() {
+        shapes.push(title_shape(&title, start_x, start_y - 500_000));
+    }
+
     let mut x = start_x;
 
     for (section_name, items) in &sections {
@@ -85,10 +89,10 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                 .with_text(&format!("{} ({})", task, score)),
             );
 
-            y += item_height;
+            y = advance(y, item_height);
         }
 
-        x += section_width + section_gap;
+        x = advance(x, section_width + section_gap);
     }
 
     // If no sections parsed, create placeholder
diff --git a/src/cli/markdown/mermaid/mindmap.rs b/src/cli/markdown/mermaid/mindmap.rs
index ab2bf65..6d55d5f 100644
--- a/src/cli/markdown/mermaid/mindmap.rs
+++ b/src/cli/markdown/mermaid/mindmap.rs
@@ -1,8 +1,17 @@
 //! Mindmap diagram parsing and rendering
 
-use super::types::{create_labeled_shape, LabelPosition};
+use super::types::{create_labeled_shape, steps, LabelPosition};
 use crate::generator::{Shape, ShapeType};
 
+/// The text of a node, which may be in brackets after an id: `id((text))`
+fn node_text(node: &str) -> &str {
+    let inside = node.find(['(', '[', '{']).and_then(|at| {
+        (!node[..at].contains(char::is_whitespace) && node.ends_with([')', ']', '}']))
+            .then(|| node[at..].trim_matches(['(', ')', '[', ']', '{', '}']))
+    });
+    inside.unwrap_or(node).trim()
+}
+
 /// Generate shapes for a mindmap
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
@@ -18,11 +27,12 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
 
         let spaces = line.len() - line.trim_start().len();
-        let text = trimmed
-            .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
-            .trim()
-            .trim_matches(|c| c == '(' || c == ')' || c == '[' || c == ']')
-            .to_string();
+        let text = node_text(
+            trimmed
+                .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
+                .trim(),
+        )
+        .to_string();
 
         if text.is_empty() {
             continue;
@@ -32,7 +42,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             if root.is_empty() {
                 root = text;
             }
-        } else if spaces <= 8 {
+        } else if spaces <= 8 || level1.is_empty() {
             level1.push(text);
         } else {
             let parent_idx = level1.len().saturating_sub(1);
@@ -50,6 +60,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let radius1 = 2_000_000u32;
     let radius2 = 3_200_000u32;
 
+    // Top left corner of the node at this distance and angle from the center
+    let around = |radius: u32, angle: f64| {
+        let x = f64::from(center_x) + f64::from(radius) * angle.cos() - f64::from(node_width / 2);
+        let y = f64::from(center_y) + f64::from(radius) * angle.sin() - f64::from(node_height / 2);
+        (x as u32, y as u32)
+    };
+
     // Root node using helper
     shapes.extend(create_labeled_shape(
         ShapeType::Ellipse,
@@ -73,8 +90,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for (i, text) in level1.iter().enumerate() {
         let angle = (i as f64) * angle_step - std::f64::consts::PI / 2.0;
-        let x = center_x + (radius1 as f64 * angle.cos()) as u32 - node_width / 2;
-        let y = center_y + (radius1 as f64 * angle.sin()) as u32 - node_height / 2;
+        let (x, y) = around(radius1, angle);
 
         let color = level1_colors[i % level1_colors.len()];
         shapes.extend(create_labeled_shape(
@@ -91,11 +107,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Level 2 nodes
-    for (parent_idx, text) in &level2 {
+    for (i, (parent_idx, text)) in level2.iter().enumerate() {
         if *parent_idx < level1.len() {
             let parent_angle = (*parent_idx as f64) * angle_step - std::f64::consts::PI / 2.0;
-            let x = center_x + (radius2 as f64 * parent_angle.cos()) as u32 - node_width / 2;
-            let y = center_y + (radius2 as f64 * parent_angle.sin()) as u32 - node_height / 2;
+            let (x, y) = around(radius2, parent_angle);
+            // The children of one parent are placed below each other
+            let earlier = level2[..i].iter().filter(|(p, _)| p == parent_idx).count();
+            let y = y + steps(earlier, node_height + 50_000);
 
             shapes.extend(create_labeled_shape(
                 ShapeType::RoundedRectangle,
diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 5a6ec4b..957599a 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -34,9 +34,22 @@ pub use types::*;
 
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
+/// The code from the line that names the type of the diagram on
+fn from_type_line(code: &str) -> &str {
+    let mut rest = code;
+    while let Some(line) = rest.lines().next() {
+        let trimmed = line.trim();
+        if !trimmed.is_empty() && !trimmed.starts_with("%%") {
+            break;
+        }
+        rest = rest.split_once('\n').map_or("", |(_, r)| r);
+    }
+    rest
+}
+
 /// Detect the type of Mermaid diagram from code
 pub fn detect_type(code: &str) -> MermaidType {
-    let first_line = code.lines().next().unwrap_or("").trim().to_lowercase();
+    let first_line = from_type_line(code).lines().next().unwrap_or("").trim().to_lowercase();
 
     if first_line.starts_with("graph") || first_line.starts_with("flowchart") {
         MermaidType::Flowchart
@@ -69,6 +82,7 @@ pub fn detect_type(code: &str) -> MermaidType {
 
 /// Create shapes and connectors for a Mermaid diagram (main entry point)
 pub fn create_diagram_elements(code: &str) -> DiagramElements {
+    let code = from_type_line(code);
     let diagram_type = detect_type(code);
 
     match diagram_type {
@@ -78,7 +92,10 @@ pub fn create_diagram_elements(code: &str) -> DiagramElements {
         }
         MermaidType::Pie => {
             let slices = pie::parse(code);
-            let shapes = pie::generate_shapes(&slices);
+            let mut shapes = pie::generate_shapes(&slices);
+            if let Some(title) = pie::parse_title(code) {
+                shapes.push(title_shape(&title, 1_000_000, 900_000));
+            }
             DiagramElements::from_shapes(shapes)
         }
         MermaidType::Sequence => DiagramElements::from_shapes(sequence::generate_shapes(code)),
diff --git a/src/cli/markdown/mermaid/pie.rs b/src/cli/markdown/mermaid/pie.rs
index 6d6d186..79257f8 100644
--- a/src/cli/markdown/mermaid/pie.rs
+++ b/src/cli/markdown/mermaid/pie.rs
@@ -1,5 +1,6 @@
 //! Pie chart diagram parsing and rendering
 
+use super::types::{after_keyword, steps};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Parse pie chart data
@@ -8,8 +9,9 @@ pub fn parse(code: &str) -> Vec<(String, f64)> {
 
     for line in code.lines().skip(1) {
         let line = line.trim();
-        if line.contains(':') && !line.starts_with("title") {
-            if let Some((label, value)) = line.split_once(':') {
+        if line.contains(':') && after_keyword(line, "title").is_none() {
+            // The label may have colons of its own
+            if let Some((label, value)) = line.rsplit_once(':') {
                 let label = label.trim().trim_matches('"').to_string();
                 if let Ok(val) = value.trim().parse::<f64>() {
                     slices.push((label, val));
@@ -21,6 +23,18 @@ pub fn parse(code: &str) -> Vec<(String, f64)> {
     slices
 }
 
+/// The title of a pie chart, on the first line or on one of its own
+pub fn parse_title(code: &str) -> Option<String> {
+    code.lines().enumerate().find_map(|(i, line)| {
+        let mut line = line.trim();
+        if i == 0 {
+            line = after_keyword(line, "pie")?;
+            line = after_keyword(line, "showData").unwrap_or(line);
+        }
+        after_keyword(line, "title").filter(|t| !t.is_empty()).map(str::to_string)
+    })
+}
+
 /// Generate shapes for a pie chart
 pub fn generate_shapes(slices: &[(String, f64)]) -> Vec<Shape> {
     let mut shapes = Vec::new();
@@ -67,7 +81,7 @@ pub fn generate_shapes(slices: &[(String, f64)]) -> Vec<Shape> {
         let box_shape = Shape::new(
             ShapeType::Rectangle,
             legend_x,
-            legend_y + (i as u32) * legend_height,
+            legend_y + steps(i, legend_height),
             200_000,
             200_000,
         )
@@ -79,7 +93,7 @@ pub fn generate_shapes(slices: &[(String, f64)]) -> Vec<Shape> {
         let label_shape = Shape::new(
             ShapeType::Rectangle,
             legend_x + 300_000,
-            legend_y + (i as u32) * legend_height,
+            legend_y + steps(i, legend_height),
             2_500_000,
             200_000,
         )
diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 79ff1d4..852221d 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -1,35 +1,32 @@
 //! Quadrant chart rendering
 
-use super::types::{create_labeled_dot, LabelPosition};
+use super::types::{after_keyword, create_labeled_dot, title_shape, LabelPosition};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a quadrant chart
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut points: Vec<(String, f32, f32)> = Vec::new();
-    let mut _x_axis = ("Low", "High");
-    let mut _y_axis = ("Low", "High");
+    let mut title = "";
+    let mut x_axis = ("", "");
+    let mut y_axis = ("", "");
     let mut quadrant_labels = ["", "", "", ""];
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
-        if trimmed.is_empty() || trimmed.starts_with("title") {
+        if trimmed.is_empty() || trimmed.starts_with("%%") {
             continue;
         }
 
-        if trimmed.starts_with("x-axis") {
+        if let Some(text) = after_keyword(trimmed, "title") {
+            title = text;
+        } else if let Some(text) = after_keyword(trimmed, "x-axis") {
             // Parse: x-axis Low Effort --> High Effort
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _x_axis.0 = parts[0].strip_prefix("x-axis").unwrap_or("").trim();
-                _x_axis.1 = parts[1].trim();
-            }
-        } else if trimmed.starts_with("y-axis") {
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _y_axis.0 = parts[0].strip_prefix("y-axis").unwrap_or("").trim();
-                _y_axis.1 = parts[1].trim();
-            }
+            let (low, high) = text.split_once("-->").unwrap_or((text, ""));
+            x_axis = (low.trim(), high.trim());
+        } else if let Some(text) = after_keyword(trimmed, "y-axis") {
+            let (low, high) = text.split_once("-->").unwrap_or((text, ""));
+            y_axis = (low.trim(), high.trim());
         } else if trimmed.starts_with("quadrant-") {
             // Parse quadrant labels
             if let Some(rest) = trimmed.strip_prefix("quadrant-1") {
@@ -82,13 +79,15 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[0]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[0]),
     );
     // Q2: top-left (low x, high y)
     shapes.push(
         Shape::new(ShapeType::Rectangle, chart_x, chart_y, half_w, half_h)
             .with_fill(ShapeFill::new(colors[1]))
-            .with_line(ShapeLine::new("9E9E9E", 12700)),
+            .with_line(ShapeLine::new("9E9E9E", 12700))
+            .with_text(quadrant_labels[1]),
     );
     // Q3: bottom-left (low x, low y)
     shapes.push(
@@ -100,7 +99,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[2]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[2]),
     );
     // Q4: bottom-right (high x, low y)
     shapes.push(
@@ -112,17 +112,34 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[3]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[3]),
     );
 
+    // Title and ends of the axes
+    if !title.is_empty() {
+        shapes.push(title_shape(title, chart_x, chart_y - 500_000));
+    }
+    let axis_y = chart_y + chart_height + 50_000;
+    for (text, x, y) in [
+        (x_axis.0, chart_x, axis_y),
+        (x_axis.1, chart_x + half_w, axis_y),
+        (y_axis.0, chart_x - 950_000, chart_y + half_h),
+        (y_axis.1, chart_x - 950_000, chart_y),
+    ] {
+        if !text.is_empty() {
+            shapes.push(Shape::new(ShapeType::Rectangle, x, y, 900_000, 300_000).with_text(text));
+        }
+    }
+
     // Draw points with separate labels using helper
     let point_size = 300_000u32;
     for (label, x, y) in &points {
         // Convert 0-1 coordinates to chart position
         // Note: y is inverted (0 at bottom, 1 at top)
-        let px = chart_x + ((*x * chart_width as f32) as u32).saturating_sub(point_size / 2);
+        let px = chart_x + ((x.clamp(0.0, 1.0) * chart_width as f32) as u32).saturating_sub(point_size / 2);
         let py =
-            chart_y + (((1.0 - *y) * chart_height as f32) as u32).saturating_sub(point_size / 2);
+            chart_y + (((1.0 - y.clamp(0.0, 1.0)) * chart_height as f32) as u32).saturating_sub(point_size / 2);
 
         shapes.extend(create_labeled_dot(
             px,
diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index a43a5db..b469d8b 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -1,8 +1,12 @@
 //! Sequence diagram parsing and rendering
 
+use super::types::{after_keyword, steps};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// The arrows of messages
+const ARROWS: [&str; 6] = ["-->>", "->>", "-->", "->", "--)", "-)"];
+
 /// Generate shapes for a sequence diagram
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
@@ -14,8 +18,9 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         let line = line.trim();
 
         // Parse participant
-        if line.starts_with("participant") {
-            let rest = line.strip_prefix("participant").unwrap_or("").trim();
+        if let Some(rest) =
+            after_keyword(line, "participant").or_else(|| after_keyword(line, "actor"))
+        {
             let (id, display_name) = if let Some((id, alias)) = rest.split_once(" as ") {
                 (id.trim().to_string(), alias.trim().to_string())
             } else {
@@ -28,10 +33,16 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             }
         }
         // Parse message
-        else if line.contains("->>") || line.contains("-->>") {
-            let arrow = if line.contains("-->>") { "-->>" } else { "->>" };
-            if let Some((from_part, rest)) = line.split_once(arrow) {
-                if let Some((to_part, msg)) = rest.split_once(':') {
+        else if let Some((parties, msg)) = line.split_once(':') {
+            if let Some((at, arrow)) = ARROWS
+                .iter()
+                .filter_map(|a| parties.find(a).map(|at| (at, *a)))
+                .min_by_key(|(at, arrow)| (*at, std::cmp::Reverse(arrow.len())))
+            {
+                let (from_part, to_part) = (&parties[..at], &parties[at + arrow.len()..]);
+                {
+                    // A sign before the receiver only says that it becomes active or inactive
+                    let to_part = to_part.trim_start().trim_start_matches(['+', '-']);
                     let from = from_part.trim().to_string();
                     let to = to_part.trim().to_string();
                     let text = msg.trim().to_string();
@@ -63,7 +74,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut participant_x: HashMap<String, u32> = HashMap::new();
 
     for (i, id) in participant_ids.iter().enumerate() {
-        let x = start_x + (i as u32) * h_spacing;
+        let x = start_x + steps(i, h_spacing);
         participant_x.insert(id.clone(), x);
 
         let display_name = participant_names.get(id).unwrap_or(id);
@@ -113,7 +124,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for (i, (from, to, text)) in messages.iter().enumerate() {
         if let (Some(&from_x), Some(&to_x)) = (participant_x.get(from), participant_x.get(to)) {
-            let y = message_y_start + (i as u32) * message_spacing;
+            let y = message_y_start + steps(i, message_spacing);
             let from_center = from_x + participant_width / 2;
             let to_center = to_x + participant_width / 2;
 
diff --git a/src/cli/markdown/mermaid/state_diagram.rs b/src/cli/markdown/mermaid/state_diagram.rs
index 5c97e79..d5fe42c 100644
--- a/src/cli/markdown/mermaid/state_diagram.rs
+++ b/src/cli/markdown/mermaid/state_diagram.rs
@@ -1,6 +1,6 @@
 //! State diagram parsing and rendering
 
-use super::types::DiagramElements;
+use super::types::{after_keyword, steps, DiagramElements};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
@@ -17,7 +17,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
 
     for line in code.lines().skip(1) {
         let line = line.trim();
-        if line.is_empty() || line.starts_with("%%") || line.starts_with("direction") {
+        if line.is_empty() || line.starts_with("%%") || after_keyword(line, "direction").is_some() {
             continue;
         }
 
@@ -63,8 +63,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shape_id = 10u32;
 
     for (i, state) in states.iter().enumerate() {
-        let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * v_spacing;
+        let x = start_x + steps(i % 3, h_spacing);
+        let y = start_y + steps(i / 3, v_spacing);
         state_positions.insert(state.clone(), (x, y));
         state_shape_ids.insert(state.clone(), shape_id);
 
diff --git a/src/cli/markdown/mermaid/timeline.rs b/src/cli/markdown/mermaid/timeline.rs
index 13f8242..85c8efa 100644
--- a/src/cli/markdown/mermaid/timeline.rs
+++ b/src/cli/markdown/mermaid/timeline.rs
@@ -1,5 +1,6 @@
 //! Timeline diagram parsing and rendering
 
+use super::types::{after_keyword, steps};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a timeline
@@ -17,8 +18,16 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             continue;
         }
 
-        if line.starts_with("title") {
-            title = line.strip_prefix("title").unwrap_or("").trim().to_string();
+        if let Some(text) = after_keyword(line, "title") {
+            title = text.to_string();
+        } else if let (Some(item), false) = (line.strip_prefix(':'), current_date.is_empty()) {
+            // One more item of the same date
+            current_items.push(item.trim().to_string());
+        } else if let Some(section) = after_keyword(line, "section") {
+            if !current_date.is_empty() {
+                events.push((std::mem::take(&mut current_date), std::mem::take(&mut current_items)));
+            }
+            events.push((section.to_string(), Vec::new()));
         } else if line.contains(':') {
             if !current_date.is_empty() {
                 events.push((current_date.clone(), current_items.clone()));
@@ -31,6 +40,9 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             }
         } else if !current_date.is_empty() {
             current_items.push(line.to_string());
+        } else {
+            // A date without items so far
+            current_date = line.to_string();
         }
     }
 
@@ -54,7 +66,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Timeline line
-    let line_width = (events.len() as u32) * event_spacing + 500_000;
+    let line_width = steps(events.len(), event_spacing) + 500_000;
     let timeline_line = Shape::new(
         ShapeType::Rectangle,
         start_x,
@@ -69,7 +81,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let colors = ["EFEBE9", "D7CCC8", "BCAAA4", "A1887F"];
 
     for (i, (date, items)) in events.iter().enumerate() {
-        let x = start_x + (i as u32) * event_spacing;
+        let x = start_x + steps(i, event_spacing);
         let color = colors[i % colors.len()];
 
         // Date marker
@@ -97,7 +109,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         // Event items
         let items_text = items.join("\n");
-        let items_height = (items.len().max(1) as u32) * item_height;
+        let items_height = steps(items.len().max(1), item_height);
         let items_shape = Shape::new(
             ShapeType::RoundedRectangle,
             x,
diff --git a/src/cli/markdown/mermaid/types.rs b/src/cli/markdown/mermaid/types.rs
index 90a20dc..be9d442 100644
--- a/src/cli/markdown/mermaid/types.rs
+++ b/src/cli/markdown/mermaid/types.rs
@@ -83,6 +83,30 @@ pub struct Flowchart {
     pub subgraphs: Vec<Subgraph>,
 }
 
+/// Furthest a diagram goes in either direction (in EMUs); positions stop there
+const MAX_EXTENT: u32 = 1_000_000_000;
+
+/// Distance of the `i`th of things placed `spacing` apart
+pub fn steps(i: usize, spacing: u32) -> u32 {
+    u32::try_from(i).unwrap_or(u32::MAX).saturating_mul(spacing).min(MAX_EXTENT)
+}
+
+/// The position `by` further on than `pos`
+pub fn advance(pos: u32, by: u32) -> u32 {
+    pos.saturating_add(by).min(MAX_EXTENT)
+}
+
+/// What follows `word` on a line that starts with that word
+pub fn after_keyword<'a>(line: &'a str, word: &str) -> Option<&'a str> {
+    let rest = line.strip_prefix(word)?;
+    (rest.is_empty() || rest.starts_with(char::is_whitespace)).then(|| rest.trim())
+}
+
+/// The text of a title above a diagram
+pub fn title_shape(title: &str, x: u32, y: u32) -> Shape {
+    Shape::new(ShapeType::Rectangle, x, y, 7_000_000, 400_000).with_text(title)
+}
+
 /// Bounding box for diagram positioning
 #[derive(Debug, Clone, Copy)]
 pub struct DiagramBounds {
diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index d3e0252..287cc06 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -467,6 +467,18 @@ impl MarkdownParser {
             (0, 0)
         };
 
+        // Every diagram numbers its shapes from the same start: go on after those of the slide
+        let taken = self
+            .current_slide
+            .iter()
+            .flat_map(|slide| slide.shapes.iter().filter_map(|shape| shape.id))
+            .max();
+        let first = elements.shapes.iter().filter_map(|shape| shape.id).min();
+        let id_offset = match (taken, first) {
+            (Some(taken), Some(first)) => (taken + 1).saturating_sub(first),
+            _ => 0,
+        };
+
         // Apply offset to shapes
         let shapes: Vec<_> = elements
             .shapes
@@ -474,6 +486,7 @@ impl MarkdownParser {
             .map(|mut shape| {
                 shape.x = (shape.x as i32 + offset_x).max(0) as u32;
                 shape.y = (shape.y as i32 + offset_y).max(0) as u32;
+                shape.id = shape.id.map(|id| id + id_offset);
                 shape
             })
             .collect();
@@ -487,6 +500,8 @@ impl MarkdownParser {
                 conn.start_y = (conn.start_y as i32 + offset_y).max(0) as u32;
                 conn.end_x = (conn.end_x as i32 + offset_x).max(0) as u32;
                 conn.end_y = (conn.end_y as i32 + offset_y).max(0) as u32;
+                conn.start_shape_id = conn.start_shape_id.map(|id| id + id_offset);
+                conn.end_shape_id = conn.end_shape_id.map(|id| id + id_offset);
                 conn
             })
             .collect();
-- 
2.43.0


From 8cce072364f1cfbf4972156021af307ea6d7cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 45/81] fix: draw arrow heads, titles and labels of Mermaid
 diagrams as written

---
 src/cli/markdown/mermaid/class_diagram.rs | 44 +++++++++++++++--------
 src/cli/markdown/mermaid/flowchart.rs     | 29 ++++++++++-----
 src/cli/markdown/mermaid/pie.rs           |  2 +-
 src/cli/markdown/mermaid/quadrant.rs      |  2 +-
 src/cli/markdown/mermaid/sequence.rs      |  3 ++
 src/cli/markdown/mermaid/types.rs         |  2 ++
 6 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index 7f1e95f..124a7f3 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -10,6 +10,9 @@ use std::collections::HashMap;
 /// A class: its name, attributes and methods
 type Class = (String, Vec<String>, Vec<String>);
 
+/// A relation: its classes, its label and its ends
+type Relation = (String, String, String, (ArrowType, ArrowType));
+
 /// The index of the class of this name, which is added if it is new
 fn declare(classes: &mut Vec<Class>, name: &str) -> usize {
     classes.iter().position(|c| c.0 == name).unwrap_or_else(|| {
@@ -23,21 +26,33 @@ fn is_class_name(name: &str) -> bool {
 }
 
 /// Parse a relation such as `A <|-- B`, `A "1" --> "*" B : label`: its two classes and label
-fn parse_relation(line: &str) -> Option<(String, String, String)> {
-    let (line, label) = line.split_once(" : ").unwrap_or((line, ""));
+fn parse_relation(line: &str) -> Option<Relation> {
+    let (line, label) = line.split_once(':').unwrap_or((line, ""));
     let (start, end) = ["--", ".."]
         .iter()
         .filter_map(|core| line.find(core).map(|at| (at, at + 2)))
         .min()?;
     // An `o` next to a name is part of the name
-    let left = line[..start].trim_end_matches(['<', '|', '*']);
-    let left = left.strip_suffix('o').filter(|l| l.ends_with([' ', '"'])).unwrap_or(left);
-    let right = line[end..].trim_start_matches(['-', '.']).trim_start_matches(['>', '|', '*']);
-    let right = right.strip_prefix('o').filter(|r| r.starts_with([' ', '"'])).unwrap_or(right);
+    let left = &line[..start];
+    let left_name = left.trim_end_matches(['<', '|', '*']);
+    let left_name = left_name.strip_suffix('o').filter(|l| l.ends_with([' ', '"'])).unwrap_or(left_name);
+    let right = line[end..].trim_start_matches(['-', '.']);
+    let right_name = right.trim_start_matches(['>', '|', '*']);
+    let right_name = right_name.strip_prefix('o').filter(|r| r.starts_with([' ', '"'])).unwrap_or(right_name);
+    let heads = (head(&left[left_name.len()..]), head(&right[..right.len() - right_name.len()]));
     // How many take part stands in quotes beside the name
     let name = |s: &str| s.split('"').step_by(2).collect::<String>().trim().to_string();
-    let (from, to) = (name(left), name(right));
-    (is_class_name(&from) && is_class_name(&to)).then(|| (from, to, label.trim().to_string()))
+    let (from, to) = (name(left_name), name(right_name));
+    (is_class_name(&from) && is_class_name(&to)).then(|| (from, to, label.trim().to_string(), heads))
+}
+
+/// The end of a relation that is marked like this
+fn head(mark: &str) -> ArrowType {
+    match mark {
+        "" => ArrowType::None,
+        "*" | "o" => ArrowType::Diamond,
+        _ => ArrowType::Triangle,
+    }
 }
 
 /// Generate shapes and connectors for a class diagram
@@ -50,7 +65,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut current_attrs: Vec<String> = Vec::new();
     let mut current_methods: Vec<String> = Vec::new();
     let mut in_class = false;
-    let mut relationships: Vec<(String, String, String)> = Vec::new();
+    let mut relationships: Vec<Relation> = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -81,8 +96,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             } else if !line.is_empty() {
                 current_attrs.push(line.to_string());
             }
-        } else if let Some((from, to, label)) = parse_relation(line) {
-            relationships.push((from, to, label));
+        } else if let Some(relation) = parse_relation(line) {
+            relationships.push(relation);
         } else if let Some(name) = after_keyword(line, "class") {
             declare(&mut classes, name);
         } else if let Some((name, member)) = line.split_once(':') {
@@ -105,7 +120,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // A class that is only named in a relation is drawn too
-    for (from, to, _) in &relationships {
+    for (from, to, ..) in &relationships {
         for name in [from, to] {
             declare(&mut classes, name);
         }
@@ -182,7 +197,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // Create connectors with shape anchoring
-    for (from, to, label) in &relationships {
+    for (from, to, label, heads) in &relationships {
         if let (Some(&(from_x, from_y)), Some(&(to_x, to_y))) =
             (class_positions.get(from), class_positions.get(to))
         {
@@ -208,7 +223,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
                 to_y + 500_000,
             )
             .with_line(ConnectorLine::new("2F5496", 19050))
-            .with_end_arrow(ArrowType::Triangle);
+            .with_start_arrow(heads.0)
+            .with_end_arrow(heads.1);
 
             // Anchor to shapes for auto-routing
             if let Some(id) = from_shape_id {
diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index c829183..c25fa6b 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -41,9 +41,11 @@ pub fn parse(code: &str) -> Flowchart {
 
         // Handle subgraph start
         if let Some(name) = after_keyword(line, "subgraph") {
+            // The title may be in brackets, after an id, and quoted
+            let title = name.strip_suffix(']').and_then(|n| n.split_once('[')).map_or(name, |(_, t)| t);
             open_subgraphs.push(subgraphs.len());
             subgraphs.push(Subgraph {
-                name: name.to_string(),
+                name: title.trim().trim_matches('"').to_string(),
                 nodes: Vec::new(),
             });
             continue;
@@ -58,7 +60,7 @@ pub fn parse(code: &str) -> Flowchart {
         // Parse connections: A --> B, A --> |Label| B, A -- Label --> B, A[Text] --> B[Text] --> C
         let (first, links) = split_links(line.trim_end_matches(';'));
         let mut from = add_nodes(first, &mut nodes, &mut subgraphs, open_subgraphs.last().copied());
-        for (arrow_type, label, to_part) in links {
+        for (arrow_type, heads, label, to_part) in links {
             let to = add_nodes(&to_part, &mut nodes, &mut subgraphs, open_subgraphs.last().copied());
             for (f, t) in from.iter().flat_map(|f| to.iter().map(move |t| (f, t))) {
                 connections.push(FlowConnection {
@@ -66,6 +68,7 @@ pub fn parse(code: &str) -> Flowchart {
                     to: t.clone(),
                     label: label.clone(),
                     arrow_type,
+                    heads,
                 });
             }
             from = to;
@@ -151,8 +154,11 @@ fn split_outside(s: &str, sep: char) -> Vec<&str> {
     parts
 }
 
-/// Split a line into its first nodes and, for each link, its style, label and nodes
-fn split_links(line: &str) -> (&str, Vec<(ArrowStyle, Option<String>, String)>) {
+/// A link: its style, its arrow heads, its label and the nodes it leads to
+type Link = (ArrowStyle, (bool, bool), Option<String>, String);
+
+/// Split a line into its first nodes and the links that follow
+fn split_links(line: &str) -> (&str, Vec<Link>) {
     let outside = outside(line);
     let bytes = line.as_bytes();
     // The runs of link characters, such as `-->`
@@ -178,7 +184,8 @@ fn split_links(line: &str) -> (&str, Vec<(ArrowStyle, Option<String>, String)>)
         let mut run = &line[start..end];
         let mut label = None;
         // `A -- label --> B`: the link begins, has its label and goes on
-        if matches!(run, "--" | "==" | "-.") && k + 1 < runs.len() {
+        let head_at_start = run.starts_with('<');
+        if matches!(run.trim_start_matches('<'), "--" | "==" | "-.") && k + 1 < runs.len() {
             label = Some(line[end..runs[k + 1].0].trim().to_string());
             k += 1;
             end = runs[k].1;
@@ -195,7 +202,7 @@ fn split_links(line: &str) -> (&str, Vec<(ArrowStyle, Option<String>, String)>)
         };
         let to = &line[end..runs.get(k + 1).map_or(line.len(), |r| r.0)];
         let (to, piped) = extract_arrow_label(to.trim());
-        links.push((style, piped.or(label), to));
+        links.push((style, (head_at_start, run.ends_with('>')), piped.or(label), to));
         k += 1;
     }
     (first, links)
@@ -265,7 +272,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
     let mut connectors = Vec::new();
     let node_count = flowchart.nodes.len();
 
-    if node_count == 0 {
+    if node_count == 0 && flowchart.subgraphs.is_empty() {
         return DiagramElements {
             shapes,
             connectors,
@@ -443,7 +450,8 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
 
             let mut connector = Connector::new(connector_type, start_x, start_y, end_x, end_y)
                 .with_line(ConnectorLine::new(line_color, 19050).with_dash(line_dash))
-                .with_end_arrow(ArrowType::Triangle);
+                .with_start_arrow(head(conn.heads.0))
+                .with_end_arrow(head(conn.heads.1));
 
             // Anchor connector to shapes for auto-routing
             if let Some(from_id) = from_shape_id {
@@ -496,6 +504,11 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
     }
 }
 
+/// The end of a link
+fn head(shown: bool) -> ArrowType {
+    if shown { ArrowType::Triangle } else { ArrowType::None }
+}
+
 fn get_subgraph_color(index: usize) -> &'static str {
     const COLORS: [&str; 6] = ["E3F2FD", "F3E5F5", "E8F5E9", "FFF3E0", "E0F7FA", "FCE4EC"];
     COLORS[index % COLORS.len()]
diff --git a/src/cli/markdown/mermaid/pie.rs b/src/cli/markdown/mermaid/pie.rs
index 79257f8..b89278f 100644
--- a/src/cli/markdown/mermaid/pie.rs
+++ b/src/cli/markdown/mermaid/pie.rs
@@ -9,7 +9,7 @@ pub fn parse(code: &str) -> Vec<(String, f64)> {
 
     for line in code.lines().skip(1) {
         let line = line.trim();
-        if line.contains(':') && after_keyword(line, "title").is_none() {
+        if line.contains(':') && !line.starts_with("%%") && after_keyword(line, "title").is_none() {
             // The label may have colons of its own
             if let Some((label, value)) = line.rsplit_once(':') {
                 let label = label.trim().trim_matches('"').to_string();
diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 852221d..126601c 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -41,7 +41,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         } else if trimmed.contains('[') && trimmed.contains(']') {
             // Parse point: "Label: [x, y]"
             if let Some(bracket_start) = trimmed.find('[') {
-                let label = trimmed[..bracket_start].trim_end_matches(':').trim();
+                let label = trimmed[..bracket_start].trim().trim_end_matches(':').trim();
                 let coords = &trimmed[bracket_start..];
                 if let Some(bracket_end) = coords.find(']') {
                     let coord_str = &coords[1..bracket_end];
diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index b469d8b..977df21 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -16,6 +16,9 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for line in code.lines().skip(1) {
         let line = line.trim();
+        if line.starts_with("%%") {
+            continue;
+        }
 
         // Parse participant
         if let Some(rest) =
diff --git a/src/cli/markdown/mermaid/types.rs b/src/cli/markdown/mermaid/types.rs
index be9d442..6efce95 100644
--- a/src/cli/markdown/mermaid/types.rs
+++ b/src/cli/markdown/mermaid/types.rs
@@ -56,6 +56,8 @@ pub struct FlowConnection {
     pub to: String,
     pub label: Option<String>,
     pub arrow_type: ArrowStyle,
+    /// Whether there is an arrow head at the start and at the end
+    pub heads: (bool, bool),
 }
 
 /// Arrow styles
-- 
2.43.0


From 4c8ed0b86318be0865cf3b135167ccd113c33129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 46/81] fix: show all text of slides in PDF export, in fonts
 and encodings of the page

---
 src/export/slide_render.rs | 413 ++++++++++++++++++++++---------------
 1 file changed, 244 insertions(+), 169 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..de5f581 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -19,36 +19,29 @@ const FONT_HELVETICA: &str = "Helvetica";
 const FONT_HELVETICA_BOLD: &str = "Helvetica-Bold";
 const FONT_HELVETICA_OBLIQUE: &str = "Helvetica-Oblique";
 const FONT_HELVETICA_BOLD_OBLIQUE: &str = "Helvetica-BoldOblique";
+const FONT_COURIER: &str = "Courier";
 
 struct FontIds {
     helvetica: u32,
     helvetica_bold: u32,
     helvetica_oblique: u32,
     helvetica_bold_oblique: u32,
+    courier: u32,
 }
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
-    let helvetica = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA
-    ));
-    let helvetica_bold = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD
-    ));
-    let helvetica_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_OBLIQUE
-    ));
-    let helvetica_bold_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD_OBLIQUE
-    ));
+    let mut add = |name: &str| {
+        generator.add_object(format!(
+            "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
+            name
+        ))
+    };
     FontIds {
-        helvetica,
-        helvetica_bold,
-        helvetica_oblique,
-        helvetica_bold_oblique,
+        helvetica: add(FONT_HELVETICA),
+        helvetica_bold: add(FONT_HELVETICA_BOLD),
+        helvetica_oblique: add(FONT_HELVETICA_OBLIQUE),
+        helvetica_bold_oblique: add(FONT_HELVETICA_BOLD_OBLIQUE),
+        courier: add(FONT_COURIER),
     }
 }
 
@@ -63,7 +56,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
@@ -79,6 +72,22 @@ fn escape_pdf_text(s: &str) -> String {
         .replace(')', "\\)")
 }
 
+/// Encode text for a font with WinAnsiEncoding; other characters become `?`
+fn win_ansi(s: &str) -> Vec<u8> {
+    // The characters that do not have their Unicode number
+    const FROM_80: [char; 32] = [
+        '€', '\0', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '\0', 'Ž', '\0', '\0', '‘',
+        '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '\0', 'ž', 'Ÿ',
+    ];
+    s.chars()
+        .map(|c| match c {
+            ' '..='~' | '\u{a0}'..='\u{ff}' => c as u8,
+            c if c.is_control() => b' ',
+            c => FROM_80.iter().position(|&f| f == c).map_or(b'?', |at| 0x80 + at as u8),
+        })
+        .collect()
+}
+
 fn set_color(out: &mut Vec<u8>, r: f32, g: f32, b: f32) {
     out.extend_from_slice(format!("{:.3} {:.3} {:.3} rg\n", r, g, b).as_bytes());
 }
@@ -88,7 +97,7 @@ fn set_font(out: &mut Vec<u8>, name: &str, size: f32) {
 }
 
 fn draw_rect(out: &mut Vec<u8>, x: f32, y: f32, w: f32, h: f32) {
-    out.extend_from_slice(format!("{:.1} {:.1} {:.1} {:.1} re\n", x, y, w, h).as_bytes());
+    out.extend_from_slice(format!("{:.3} {:.3} {:.3} {:.3} re\n", x, y, w, h).as_bytes());
     out.extend_from_slice(b"f\n");
 }
 
@@ -106,8 +115,10 @@ fn draw_text_line(
     set_color(out, r, g, b);
     set_font(out, font_name, font_size);
     out.extend_from_slice(b"BT\n");
-    out.extend_from_slice(format!("{} {:.1} Td\n", x, y).as_bytes());
-    out.extend_from_slice(format!("({}) Tj\n", escape_pdf_text(text)).as_bytes());
+    out.extend_from_slice(format!("{} {:.3} Td\n", x, y).as_bytes());
+    out.extend_from_slice(b"(");
+    out.extend_from_slice(&win_ansi(&escape_pdf_text(text)));
+    out.extend_from_slice(b") Tj\n");
     out.extend_from_slice(b"ET\n");
 }
 
@@ -120,10 +131,10 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     match style {
         BulletStyle::Bullet => "\u{2022}".to_string(),
         BulletStyle::Number => format!("{}.", index + 1),
-        BulletStyle::LetterLower => format!("{}.", char::from_u32(b'a' as u32 + index).unwrap_or('a')),
-        BulletStyle::LetterUpper => format!("{}.", char::from_u32(b'A' as u32 + index).unwrap_or('A')),
-        BulletStyle::RomanLower => to_roman(index + 1).to_lowercase(),
-        BulletStyle::RomanUpper => to_roman(index + 1),
+        BulletStyle::LetterLower => format!("{}.", to_letters(index)),
+        BulletStyle::LetterUpper => format!("{}.", to_letters(index).to_uppercase()),
+        BulletStyle::RomanLower => format!("{}.", to_roman(index + 1).to_lowercase()),
+        BulletStyle::RomanUpper => format!("{}.", to_roman(index + 1)),
         BulletStyle::Custom(ch) => ch.to_string(),
         BulletStyle::None => String::new(),
     }
@@ -141,173 +152,235 @@ fn to_roman(mut num: u32) -> String {
     result
 }
 
-fn render_slide(
-    slide: &SlideContent,
-    slide_num: usize,
-    total: usize,
-    layout: &PageLayout,
-) -> Vec<u8> {
-    let mut cs = Vec::with_capacity(2048);
-    let page_w = layout.width;
-    let page_h = layout.height;
-    let margin = 54.0;
-
-    // White background
-    set_color(&mut cs, 1.0, 1.0, 1.0);
-    draw_rect(&mut cs, 0.0, 0.0, page_w, page_h);
+/// The letters of the number: a to z, then aa, bb and so on
+fn to_letters(index: u32) -> String {
+    let letter = char::from(b'a' + (index % 26) as u8);
+    std::iter::repeat_n(letter, index as usize / 26 + 1).collect()
+}
 
-    // Title
-    let title_size = slide.title_size.unwrap_or(36) as f32 * 0.75;
-    let title_bold = slide.title_bold;
-    let title_italic = slide.title_italic;
-    let (tr, tg, tb) = slide
-        .title_color
-        .as_deref()
-        .map(hex_to_rgb)
-        .unwrap_or((0.1, 0.1, 0.1));
-
-    let title_y = page_h - margin - title_size;
-
-    match slide.layout {
-        SlideLayout::CenteredTitle | SlideLayout::SectionHeader => {
-            let tw = approx_text_width(&slide.title, title_size);
-            let tx = (page_w - tw) / 2.0;
-            draw_text_line(
-                &mut cs,
-                &slide.title,
-                tx,
-                title_y,
-                font_name(title_bold, title_italic),
-                title_size,
-                tr, tg, tb,
-            );
-        }
-        _ => {
-            draw_text_line(
-                &mut cs,
-                &slide.title,
-                margin,
-                title_y,
-                font_name(title_bold, title_italic),
-                title_size,
-                tr, tg, tb,
-            );
-            // Underline
-            if slide.title_underline {
-                set_color(&mut cs, tr, tg, tb);
-                cs.extend_from_slice(
-                    format!("{:.1} {:.1} m\n{:.1} {:.1} l\n1 w\nS\n", margin, title_y - 4.0, page_w - margin, title_y - 4.0).as_bytes(),
-                );
+/// Break text into lines that are not wider than `width`
+fn wrap(text: &str, width: f32, font_size: f32) -> Vec<String> {
+    let max = ((width / approx_text_width("x", font_size)) as usize).max(1);
+    let mut lines = Vec::new();
+    for paragraph in text.split(['\n', '\u{b}', '\r']) {
+        let chars: Vec<char> = paragraph.replace('\t', "    ").chars().collect();
+        let mut rest = &chars[..];
+        while rest.len() > max {
+            let at = rest[..=max].iter().rposition(|c| *c == ' ').filter(|at| *at > 0).unwrap_or(max);
+            lines.push(rest[..at].iter().collect());
+            rest = &rest[at..];
+            if rest[0] == ' ' {
+                rest = &rest[1..];
             }
         }
+        lines.push(rest.iter().collect());
     }
+    lines
+}
 
-    // Content
-    let content_size = slide.content_size.unwrap_or(24) as f32 * 0.75;
-    let content_bold = slide.content_bold;
-    let content_italic = slide.content_italic;
-    let (cr, cg, cb) = slide
-        .content_color
-        .as_deref()
-        .map(hex_to_rgb)
-        .unwrap_or((0.2, 0.2, 0.2));
+/// A line of text across the page
+struct Row {
+    /// Texts and where they start
+    texts: Vec<(f32, String)>,
+    font: &'static str,
+    size: f32,
+    color: (f32, f32, f32),
+    height: f32,
+    shaded: bool,
+    underlined: bool,
+}
 
-    let line_height = content_size * 1.5;
-    let mut y = title_y - line_height * 1.5;
+/// The rows of the title
+fn title_rows(slide: &SlideContent, page_w: f32, margin: f32, scale: f32) -> Vec<Row> {
+    let size = slide.title_size.unwrap_or(36) as f32 * 0.75 * scale;
+    let centered = matches!(slide.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader);
+    wrap(&slide.title, page_w - 2.0 * margin, size)
+        .into_iter()
+        .map(|line| {
+            let x = if centered { (page_w - approx_text_width(&line, size)) / 2.0 } else { margin };
+            Row {
+                texts: vec![(x, line)],
+                font: font_name(slide.title_bold, slide.title_italic),
+                size,
+                color: slide.title_color.as_deref().map_or((0.1, 0.1, 0.1), hex_to_rgb),
+                height: size * 1.2,
+                shaded: false,
+                underlined: slide.title_underline,
+            }
+        })
+        .collect()
+}
 
+/// The rows below the title: bullets or content, the table and code
+fn body_rows(slide: &SlideContent, page_w: f32, margin: f32, scale: f32) -> Vec<Row> {
+    let content_size = slide.content_size.unwrap_or(24) as f32 * 0.75 * scale;
+    let content_color = slide.content_color.as_deref().map_or((0.2, 0.2, 0.2), hex_to_rgb);
+    let line_height = content_size * 1.5;
+    let width = page_w - 2.0 * margin;
     let is_centered = matches!(slide.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader);
+    let mut rows = Vec::new();
+    let row = |texts: Vec<(f32, String)>| Row {
+        texts,
+        font: font_name(slide.content_bold, slide.content_italic),
+        size: content_size,
+        color: content_color,
+        height: line_height,
+        shaded: false,
+        underlined: slide.content_underline,
+    };
 
     if !slide.bullets.is_empty() {
-        let mut numbered = 0u32;
+        // The style and the count of the bullets that are numbered together, by level
+        let mut numbered: Vec<Option<(BulletStyle, u32)>> = Vec::new();
         for bp in &slide.bullets {
-            if y < margin + line_height {
-                break;
-            }
-
-            let prefix = bullet_prefix(bp.style, numbered);
-            let indent = (bp.level as f32) * 20.0;
-            let bx = margin + indent;
+            let level = (bp.level as usize).min(8);
+            numbered.resize(level + 1, None);
+            let index = match numbered[level] {
+                Some((style, count)) if style == bp.style => count,
+                _ => 0,
+            };
+            numbered[level] = Some((bp.style, index + 1));
 
             let fmt = bp.format.as_ref();
-            let b_bold = content_bold || fmt.is_some_and(|f| f.bold);
-            let b_italic = content_italic || fmt.is_some_and(|f| f.italic);
-            let (btr, btg, btb) = fmt
-                .and_then(|f| f.color.as_deref())
-                .map(hex_to_rgb)
-                .unwrap_or((cr, cg, cb));
-            let b_size = fmt
-                .and_then(|f| f.font_size)
-                .map(|s| s as f32 * 0.75)
-                .unwrap_or(content_size);
-
-            if !prefix.is_empty() {
-                draw_text_line(
-                    &mut cs,
-                    &prefix,
-                    bx,
-                    y,
-                    font_name(b_bold, b_italic),
-                    b_size,
-                    btr, btg, btb,
-                );
-            }
-
-            let text_x = bx + if prefix.is_empty() { 0.0 } else { 20.0 };
-            let text = &bp.text;
-            draw_text_line(
-                &mut cs,
-                text,
-                text_x,
-                y,
-                font_name(b_bold, b_italic),
-                b_size,
-                btr, btg, btb,
-            );
-
-            y -= line_height;
-            if matches!(bp.style, BulletStyle::Number | BulletStyle::LetterLower | BulletStyle::LetterUpper | BulletStyle::RomanLower | BulletStyle::RomanUpper) {
-                numbered += 1;
+            let size = fmt.and_then(|f| f.font_size).map_or(content_size, |s| s as f32 * 0.75 * scale);
+            let prefix = bullet_prefix(bp.style, index);
+            let bx = margin + level as f32 * 20.0;
+            let text_x = if prefix.is_empty() {
+                bx
+            } else {
+                bx + (approx_text_width(&prefix, size) + 4.0).clamp(20.0, width / 4.0)
+            };
+            for (i, line) in wrap(&bp.text, page_w - margin - text_x, size).into_iter().enumerate() {
+                let mut texts = vec![(text_x, line)];
+                if i == 0 && !prefix.is_empty() {
+                    texts.insert(0, (bx, prefix.clone()));
+                }
+                rows.push(Row {
+                    font: font_name(
+                        slide.content_bold || fmt.is_some_and(|f| f.bold),
+                        slide.content_italic || fmt.is_some_and(|f| f.italic),
+                    ),
+                    size,
+                    color: fmt.and_then(|f| f.color.as_deref()).map_or(content_color, hex_to_rgb),
+                    height: size.max(content_size) * 1.5,
+                    underlined: slide.content_underline || fmt.is_some_and(|f| f.underline),
+                    ..row(texts)
+                });
             }
         }
-    } else if !slide.content.is_empty() {
-        for line in &slide.content {
-            if y < margin + line_height {
-                break;
-            }
-            if is_centered {
-                let tw = approx_text_width(line, content_size);
-                let tx = (page_w - tw) / 2.0;
-                draw_text_line(&mut cs, line, tx, y, font_name(content_bold, content_italic), content_size, cr, cg, cb);
-            } else {
-                draw_text_line(&mut cs, line, margin, y, font_name(content_bold, content_italic), content_size, cr, cg, cb);
+    } else {
+        for text in &slide.content {
+            for line in wrap(text, width, content_size) {
+                let x = if is_centered {
+                    (page_w - approx_text_width(&line, content_size)) / 2.0
+                } else {
+                    margin
+                };
+                rows.push(row(vec![(x, line)]));
             }
-            y -= line_height;
+        }
+    }
+
+    // Table
+    for cells in slide.table.iter().flat_map(|table| &table.rows) {
+        let cell_w = width / cells.cells.len().max(1) as f32;
+        let columns: Vec<Vec<String>> = cells
+            .cells
+            .iter()
+            .map(|cell| match cell.h_merge || cell.v_merge {
+                true => Vec::new(),
+                false => wrap(&cell.text, cell_w - 4.0, content_size),
+            })
+            .collect();
+        for i in 0..columns.iter().map(Vec::len).max().unwrap_or(0) {
+            let texts = columns
+                .iter()
+                .enumerate()
+                .filter_map(|(c, lines)| Some((margin + c as f32 * cell_w, lines.get(i)?.clone())))
+                .collect();
+            rows.push(Row { underlined: false, ..row(texts) });
         }
     }
 
     // Code blocks
     for code_block in &slide.code_blocks {
-        if y < margin + line_height {
-            break;
-        }
         let code_size = content_size * 0.85;
-        let code_line_h = code_size * 1.4;
-        let code_bg_h = (code_block.code.lines().count() as f32 + 1.0) * code_line_h;
+        rows.push(Row { height: line_height * 0.5, ..row(Vec::new()) });
+        for line in code_block.code.lines() {
+            // The characters of Courier are wider
+            for line in wrap(line, width - 16.0, code_size * 1.2) {
+                rows.push(Row {
+                    texts: vec![(margin + 8.0, line)],
+                    font: FONT_COURIER,
+                    size: code_size,
+                    color: (0.1, 0.1, 0.1),
+                    height: code_size * 1.4,
+                    shaded: true,
+                    underlined: false,
+                });
+            }
+        }
+    }
+    rows
+}
 
-        // Background
-        set_color(&mut cs, 0.95, 0.95, 0.95);
-        draw_rect(&mut cs, margin, y - code_bg_h, page_w - 2.0 * margin, code_bg_h);
+/// The rows at the largest scale at which they are not higher than `room`
+fn fit(room: f32, rows: impl Fn(f32) -> Vec<Row>) -> Vec<Row> {
+    let mut scale = 1.0;
+    loop {
+        let fitted = rows(scale);
+        if scale < 1e-12 || fitted.iter().map(|row| row.height).sum::<f32>() <= room {
+            return fitted;
+        }
+        scale *= 0.9;
+    }
+}
 
-        // Code text
-        y -= code_line_h;
-        for line in code_block.code.lines() {
-            if y < margin {
-                break;
+fn render_slide(
+    slide: &SlideContent,
+    slide_num: usize,
+    total: usize,
+    layout: &PageLayout,
+) -> Vec<u8> {
+    let mut cs = Vec::with_capacity(2048);
+    let page_w = layout.width;
+    let page_h = layout.height;
+    let margin = 54.0;
+
+    // White background
+    set_color(&mut cs, 1.0, 1.0, 1.0);
+    draw_rect(&mut cs, 0.0, 0.0, page_w, page_h);
+
+    // Title, and everything else in the room below it
+    let mut rows = fit((page_h - 2.0 * margin) * 0.4, |scale| title_rows(slide, page_w, margin, scale));
+    let gap = 24.0;
+    let room = page_h - 2.0 * margin - gap - rows.iter().map(|row| row.height).sum::<f32>();
+    let title_count = rows.len();
+    rows.extend(fit(room, |scale| body_rows(slide, page_w, margin, scale)));
+
+    let mut y = page_h - margin;
+    for (i, row) in rows.iter().enumerate() {
+        if i == title_count {
+            y -= gap;
+        }
+        y -= row.height;
+        if row.shaded {
+            set_color(&mut cs, 0.95, 0.95, 0.95);
+            draw_rect(&mut cs, margin, y, page_w - 2.0 * margin, row.height);
+        }
+        let (r, g, b) = row.color;
+        // The baseline is above the descenders
+        let base = y + (row.height - row.size) / 2.0 + row.size * 0.2;
+        for (x, text) in &row.texts {
+            draw_text_line(&mut cs, text, *x, base, row.font, row.size, r, g, b);
+            if row.underlined {
+                let line_y = base - row.size * 0.12;
+                let end = x + approx_text_width(text, row.size);
+                cs.extend_from_slice(
+                    format!("{:.3} {:.3} {:.3} RG\n1 w\n{:.3} {:.3} m\n{:.3} {:.3} l\nS\n", r, g, b, x, line_y, end, line_y).as_bytes(),
+                );
             }
-            draw_text_line(&mut cs, line, margin + 8.0, y, "Courier", code_size, 0.1, 0.1, 0.1);
-            y -= code_line_h;
         }
-        y -= line_height * 0.5;
     }
 
     // Slide number footer
@@ -346,6 +419,7 @@ fn add_page(
              /{} {} 0 R \
              /{} {} 0 R \
              /{} {} 0 R \
+             /{} {} 0 R \
          >> >>\n\
          >>\n",
         pages_obj_id,
@@ -356,6 +430,7 @@ fn add_page(
         FONT_HELVETICA_BOLD, font_ids.helvetica_bold,
         FONT_HELVETICA_OBLIQUE, font_ids.helvetica_oblique,
         FONT_HELVETICA_BOLD_OBLIQUE, font_ids.helvetica_bold_oblique,
+        FONT_COURIER, font_ids.courier,
     );
     generator.add_object(page_dict)
 }
-- 
2.43.0


From 33656457aa0677e29d0e3a069f9f2437568a6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 47/81] fix: embed pictures in the PDF export by way of
 Markdown

---
 src/export/pdf_export.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/export/pdf_export.rs b/src/export/pdf_export.rs
index 7ef48dd..ef326ca 100644
--- a/src/export/pdf_export.rs
+++ b/src/export/pdf_export.rs
@@ -140,14 +140,45 @@ pub fn export_to_pdf_bytes(
         },
     )?;
 
-    let elements = pdfrs::elements::parse_markdown(&md);
+    let mut elements = pdfrs::elements::parse_markdown(&md);
+    let image_dir = std::env::temp_dir().join(format!("ppt_rs_pdf_images_{}", uuid::Uuid::new_v4()));
+    let images = if options.include_images { write_images(presentation, &image_dir)? } else { Vec::new() };
+    let mut images = images.into_iter();
+    for element in &mut elements {
+        if let pdfrs::elements::Element::Image { alt, path } = element {
+            match images.next().flatten() {
+                Some(file) => *path = file,
+                None => *element = pdfrs::elements::Element::Paragraph { text: format!("[{}]", alt) },
+            }
+        }
+    }
     let layout = match options.orientation {
         PdfOrientation::Portrait => pdfrs::pdf_generator::PageLayout::portrait(),
         PdfOrientation::Landscape => pdfrs::pdf_generator::PageLayout::landscape(),
     };
 
-    pdfrs::pdf_generator::generate_pdf_bytes(&elements, &options.font, options.font_size, layout)
-        .map_err(|e| PptxError::Generic(format!("pdfrs generation failed: {e}")))
+    let pdf = pdfrs::pdf_generator::generate_pdf_bytes(&elements, &options.font, options.font_size, layout)
+        .map_err(|e| PptxError::Generic(format!("pdfrs generation failed: {e}")));
+    let _ = std::fs::remove_dir_all(&image_dir);
+    pdf
+}
+
+/// Write the images of all slides to files, as the renderer reads images from files.
+///
+/// There is no file for an image that the renderer cannot read.
+fn write_images(presentation: &Presentation, dir: &Path) -> Result<Vec<Option<String>>> {
+    let mut files = Vec::new();
+    for image in presentation.slides().iter().flat_map(|slide| &slide.images) {
+        let mut file = None;
+        if let Some(bytes) = image.get_bytes() {
+            std::fs::create_dir_all(dir)?;
+            let path = dir.join(files.len().to_string()).to_string_lossy().into_owned();
+            std::fs::write(&path, bytes)?;
+            file = pdfrs::image::load_image(&path).is_ok().then_some(path);
+        }
+        files.push(file);
+    }
+    Ok(files)
 }
 
 /// Render a presentation to a PDF file using the pure-Rust `pdfrs` engine.
-- 
2.43.0


From d6f00bd1baaa200e65fa3816f73329cf31c0fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 48/81] fix: show all blocks of web pages, apart, in both
 grouping modes

---
 src/web2ppt/converter.rs | 191 ++++++++++++++-------------------------
 src/web2ppt/parser.rs    |  81 +++++++++++++----
 2 files changed, 130 insertions(+), 142 deletions(-)

diff --git a/src/web2ppt/converter.rs b/src/web2ppt/converter.rs
index cb3b4df..6453e40 100644
--- a/src/web2ppt/converter.rs
+++ b/src/web2ppt/converter.rs
@@ -1,6 +1,6 @@
 //! Converter from web content to PowerPoint
 
-use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentType};
+use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentBlock, ContentType};
 use crate::{create_pptx_with_content, SlideContent, SlideLayout};
 
 /// Safely truncate text at char boundary
@@ -121,6 +121,10 @@ impl Web2Ppt {
         if options.include_source_url {
             title_slide = title_slide.add_bullet(&format!("Source: {}", content.url));
         }
+        // A centered title leaves no room for bullets
+        if !title_slide.bullets.is_empty() {
+            title_slide = title_slide.layout(SlideLayout::TitleAndContent);
+        }
 
         slides.push(title_slide);
 
@@ -153,66 +157,23 @@ impl Web2Ppt {
                 break;
             }
 
-            let mut slide = SlideContent::new(&heading.text)
-                .layout(SlideLayout::TitleAndContent);
-
+            let mut slide = self.content_slide(&heading.text);
             let mut bullet_count = 0;
 
             for block in blocks {
-                if bullet_count >= self.config.max_bullets_per_slide {
+                let Some(bullet) = self.bullet(block) else { continue };
+                if bullet_count > 0 && bullet_count >= self.config.max_bullets_per_slide {
                     // Start a new slide for overflow
                     slides.push(slide);
-                    slide = SlideContent::new(&format!("{} (cont.)", heading.text))
-                        .layout(SlideLayout::TitleAndContent);
+                    slide = self.content_slide(&format!("{} (cont.)", heading.text));
                     bullet_count = 0;
 
                     if slides.len() >= self.config.max_slides {
                         break;
                     }
                 }
-
-                match &block.content_type {
-                    ContentType::Paragraph => {
-                        // Truncate long paragraphs - use char_indices for safe slicing
-                        let text = truncate_text(&block.text, 200);
-                        slide = slide.add_bullet(&text);
-                        bullet_count += 1;
-                    }
-                    ContentType::ListItem => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("• {}", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Quote => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("\"{}\"", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Code => {
-                        if self.config.include_code {
-                            let code = truncate_text(&block.text, 150);
-                            slide = slide.add_bullet(&format!("[Code] {}", code));
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Table(rows) => {
-                        if self.config.include_tables && !rows.is_empty() {
-                            let summary = format!("[Table: {} rows × {} cols]", 
-                                rows.len(), 
-                                rows.first().map(|r| r.len()).unwrap_or(0)
-                            );
-                            slide = slide.add_bullet(&summary);
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Image { alt, .. } => {
-                        if self.config.include_images && !alt.is_empty() {
-                            slide = slide.add_bullet(&format!("[Image: {}]", alt));
-                            bullet_count += 1;
-                        }
-                    }
-                    _ => {}
-                }
+                slide = slide.add_bullet(&bullet);
+                bullet_count += 1;
             }
 
             // Only add slide if it has content
@@ -226,16 +187,14 @@ impl Web2Ppt {
 
     /// Build slides linearly (not grouped)
     fn build_linear_slides(&self, content: &WebContent, slides: &mut Vec<SlideContent>) -> Result<()> {
+        let mut heading: Option<&str> = None;
         let mut current_slide: Option<SlideContent> = None;
         let mut bullet_count = 0;
 
         // If no content blocks, create a slide with description
         if content.blocks.is_empty() {
             if let Some(desc) = &content.description {
-                let slide = SlideContent::new("Content")
-                    .layout(SlideLayout::TitleAndContent)
-                    .add_bullet(desc);
-                slides.push(slide);
+                slides.push(self.content_slide("Content").add_bullet(desc));
             }
             return Ok(());
         }
@@ -245,87 +204,69 @@ impl Web2Ppt {
                 break;
             }
 
-            match &block.content_type {
-                ContentType::Title | ContentType::Heading(_) => {
-                    // Save current slide if it has content
-                    if let Some(slide) = current_slide.take() {
-                        if bullet_count > 0 {
-                            slides.push(slide);
-                        }
-                    }
-
-                    // Start new slide
-                    current_slide = Some(
-                        SlideContent::new(&block.text)
-                            .layout(SlideLayout::TitleAndContent)
-                    );
+            if block.is_heading() {
+                // Save current slide if it has content
+                slides.extend(current_slide.take());
+                heading = Some(&block.text);
+                continue;
+            }
+            let Some(bullet) = self.bullet(block) else { continue };
+            let title = *heading.get_or_insert(match block.content_type {
+                ContentType::ListItem => "Key Points",
+                _ => "Overview",
+            });
+            let slide = match current_slide.take() {
+                None => {
                     bullet_count = 0;
+                    self.content_slide(title)
                 }
-                ContentType::Paragraph => {
-                    // If no current slide, create one
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Overview")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count += 1;
-                        } else {
-                            // Start new continuation slide
-                            slides.push(slide.clone());
-                            let title = slide.title.clone();
-                            *slide = SlideContent::new(&format!("{} (cont.)", title))
-                                .layout(SlideLayout::TitleAndContent);
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count = 1;
-                        }
-                    }
-                }
-                ContentType::ListItem => {
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Key Points")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("• {}", text));
-                            bullet_count += 1;
-                        }
-                    }
-                }
-                ContentType::Quote => {
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("\"{}\"", text));
-                            bullet_count += 1;
-                        }
-                    }
+                // Start new continuation slide
+                Some(slide) if bullet_count >= self.config.max_bullets_per_slide => {
+                    slides.push(slide);
+                    bullet_count = 0;
+                    self.content_slide(&format!("{} (cont.)", title))
                 }
-                _ => {}
-            }
+                Some(slide) => slide,
+            };
+            current_slide = Some(slide.add_bullet(&bullet));
+            bullet_count += 1;
         }
 
         // Save last slide
-        if let Some(slide) = current_slide {
-            if bullet_count > 0 {
-                slides.push(slide);
-            }
-        }
+        slides.extend(current_slide);
 
         Ok(())
     }
 
+    /// An empty slide for content below a heading
+    fn content_slide(&self, title: &str) -> SlideContent {
+        SlideContent::new(title)
+            .layout(SlideLayout::TitleAndContent)
+            .title_size(self.config.title_font_size)
+            .content_size(self.config.content_font_size)
+    }
+
+    /// The bullet that shows a block, if it is one to show
+    fn bullet(&self, block: &ContentBlock) -> Option<String> {
+        match &block.content_type {
+            // Truncate long texts
+            ContentType::Paragraph => Some(truncate_text(&block.text, 200)),
+            ContentType::ListItem => Some(format!("• {}", truncate_text(&block.text, 180))),
+            ContentType::Quote => Some(format!("\"{}\"", truncate_text(&block.text, 180))),
+            ContentType::Code if self.config.include_code => {
+                Some(format!("[Code] {}", truncate_text(&block.text, 150)))
+            }
+            ContentType::Table(rows) if self.config.include_tables => {
+                let cols = rows.first()?.len();
+                Some(format!("[Table: {} rows × {} cols]", rows.len(), cols))
+            }
+            ContentType::Image { alt, .. } if self.config.include_images && !alt.is_empty() => {
+                Some(format!("[Image: {}]", alt))
+            }
+            _ => None,
+        }
+    }
+
     /// Get config
     pub fn config(&self) -> &Web2PptConfig {
         &self.config
diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..b52fca8 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -19,7 +19,44 @@
 //! See HTML_PARSERS.md for detailed comparison and migration guide.
 
 use super::{Web2PptError, Result, Web2PptConfig};
-use scraper::{Html, Selector, ElementRef};
+use scraper::{Html, Node, Selector, ElementRef};
+
+/// Elements whose text is not shown
+const HIDDEN_TAGS: &[&str] = &["script", "style", "noscript", "template", "svg", "textarea", "select", "iframe"];
+
+/// Elements that do not continue the line of the text before them
+const BLOCK_TAGS: &[&str] = &[
+    "address", "article", "aside", "blockquote", "br", "caption", "dd", "details", "div", "dl", "dt",
+    "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "header",
+    "hr", "li", "main", "nav", "ol", "p", "pre", "section", "summary", "table", "tbody", "td", "tfoot",
+    "th", "thead", "tr", "ul",
+];
+
+/// The text an element shows, with its blocks apart
+fn shown_text(element: &ElementRef) -> String {
+    let mut text = String::new();
+    // The nodes to come; `None` is the end of a block
+    let mut todo = vec![Some(**element)];
+    while let Some(next) = todo.pop() {
+        let Some(node) = next else {
+            text.push(' ');
+            continue;
+        };
+        match node.value() {
+            Node::Text(shown) => text.push_str(shown),
+            Node::Element(inner) if !HIDDEN_TAGS.contains(&inner.name()) => {
+                if BLOCK_TAGS.contains(&inner.name()) {
+                    text.push(' ');
+                    todo.push(None);
+                }
+                let children: Vec<_> = node.children().collect();
+                todo.extend(children.into_iter().rev().map(Some));
+            }
+            _ => {}
+        }
+    }
+    text
+}
 
 /// Type of content block
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -192,7 +229,11 @@ impl WebParser {
     fn extract_title(&self, document: &Html) -> String {
         // Try <title> tag first
         if let Ok(selector) = Selector::parse("title") {
-            if let Some(element) = document.select(&selector).next() {
+            // Drawings have titles too
+            let in_svg = |element: &ElementRef| {
+                element.ancestors().filter_map(ElementRef::wrap).any(|outer| outer.value().name() == "svg")
+            };
+            if let Some(element) = document.select(&selector).find(|element| !in_svg(element)) {
                 let title = element.text().collect::<String>().trim().to_string();
                 if !title.is_empty() {
                     return title;
@@ -203,7 +244,7 @@ impl WebParser {
         // Try h1
         if let Ok(selector) = Selector::parse("h1") {
             if let Some(element) = document.select(&selector).next() {
-                let title = element.text().collect::<String>().trim().to_string();
+                let title = self.clean_text(&element);
                 if !title.is_empty() {
                     return title;
                 }
@@ -290,18 +331,30 @@ impl WebParser {
         let main = main_element.ok_or(Web2PptError::NoContent)?;
 
         // Extract content in document order by walking the DOM
-        self.walk_element(&main, content, 0);
+        self.walk_element(&main, content);
 
         Ok(())
     }
 
     /// Walk element tree and extract content in order
-    fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) {
+    fn walk_element(&self, element: &ElementRef, content: &mut WebContent) {
+        // Pages may nest elements deeper than calls can be nested
+        let mut todo = vec![(*element, 0u8)];
+        while let Some((element, depth)) = todo.pop() {
+            if self.visit_element(&element, content, depth) {
+                let children: Vec<_> = element.children().filter_map(ElementRef::wrap).collect();
+                todo.extend(children.into_iter().rev().map(|child| (child, depth.saturating_add(1))));
+            }
+        }
+    }
+
+    /// Extract the content of an element; returns whether to go on with its children
+    fn visit_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) -> bool {
         // Skip script, style, nav, footer, aside, header elements
         let tag_name = element.value().name();
         let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
         if skip_tags.contains(&tag_name) {
-            return;
+            return false;
         }
 
         // Check for class/id names that indicate non-content (but be less aggressive)
@@ -310,7 +363,7 @@ impl WebParser {
             // Only skip if clearly navigation/ads
             let skip_classes = ["advertisement", "ad-container", "social-share", "comment-section"];
             if skip_classes.iter().any(|c| class_lower.contains(c)) {
-                return;
+                return false;
             }
         }
 
@@ -355,7 +408,7 @@ impl WebParser {
                         content.blocks.push(ContentBlock::new(ContentType::Code, text));
                     }
                 }
-                return; // Don't recurse into code blocks
+                return false; // Don't recurse into code blocks
             }
             "img" => {
                 if self.config.include_images {
@@ -375,7 +428,7 @@ impl WebParser {
                 if self.config.include_tables {
                     self.extract_table(element, content);
                 }
-                return; // Don't recurse into tables
+                return false; // Don't recurse into tables
             }
             "a" => {
                 // Extract important links
@@ -394,18 +447,12 @@ impl WebParser {
 
         // Always recurse into children (except for leaf elements we've already processed)
         let no_recurse_tags = ["p", "li", "pre", "code", "img", "table", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6"];
-        if !no_recurse_tags.contains(&tag_name) {
-            for child in element.children() {
-                if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
-                }
-            }
-        }
+        !no_recurse_tags.contains(&tag_name)
     }
 
     /// Clean and normalize text
     fn clean_text(&self, element: &ElementRef) -> String {
-        let text: String = element.text().collect();
+        let text = shown_text(element);
         // Normalize whitespace
         let text = text.split_whitespace().collect::<Vec<_>>().join(" ");
         text.trim().to_string()
-- 
2.43.0


From 70cb4eb89aa4240933b6709096cc66a415cf09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 49/81] fix: write and read back standalone parts without
 losing or corrupting values

---
 src/parts/app_props.rs     | 29 ++++++++++++---
 src/parts/base.rs          |  2 +-
 src/parts/content_types.rs | 56 +++++++++++++++++++++++------
 src/parts/coreprops.rs     |  4 +--
 src/parts/image.rs         |  1 +
 src/parts/media.rs         |  4 +--
 src/parts/notes_slide.rs   | 26 ++++++++++++--
 src/parts/presentation.rs  | 58 +++++++++++++++++++-----------
 src/parts/relationships.rs | 71 ++++++++++++++++++++----------------
 src/parts/slide.rs         |  1 +
 src/parts/slide_layout.rs  | 39 ++++++++++++++++++--
 src/parts/slide_master.rs  | 18 +++++++---
 src/parts/table.rs         | 73 +++++++++++++++++++++++++++++++-------
 src/parts/theme.rs         | 16 ++++++---
 14 files changed, 302 insertions(+), 96 deletions(-)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..c24574f 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -3,7 +3,9 @@
 //! Represents docProps/app.xml with application-specific metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Application properties part (docProps/app.xml)
 #[derive(Debug, Clone)]
@@ -73,7 +75,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", escape_xml(c)))
             .unwrap_or_default();
 
         format!(
@@ -94,10 +96,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            escape_xml(&self.application),
+            escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
@@ -139,7 +141,26 @@ impl Part for AppPropertiesPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let text = |name: &str| root.find(name).map(|e| e.text_content());
+        let number = |name: &str| text(name).and_then(|s| s.trim().parse().ok()).unwrap_or(0);
+        let flag = |name: &str| text(name).is_some_and(|s| matches!(s.trim(), "true" | "1"));
+
         let mut part = AppPropertiesPart::new();
+        part.application = text("Application").unwrap_or_default();
+        part.app_version = text("AppVersion").unwrap_or_default();
+        part.company = text("Company");
+        part.presentation_format = text("PresentationFormat").unwrap_or_default();
+        part.slides = number("Slides");
+        part.paragraphs = number("Paragraphs");
+        part.words = number("Words");
+        part.notes = number("Notes");
+        part.hidden_slides = number("HiddenSlides");
+        part.mm_clips = number("MMClips");
+        part.scale_crop = flag("ScaleCrop");
+        part.links_up_to_date = flag("LinksUpToDate");
+        part.shared_doc = flag("SharedDoc");
+        part.hyperlinks_changed = flag("HyperlinksChanged");
         part.xml_content = Some(xml.to_string());
         Ok(part)
     }
diff --git a/src/parts/base.rs b/src/parts/base.rs
index 41af2ef..f72e513 100644
--- a/src/parts/base.rs
+++ b/src/parts/base.rs
@@ -53,7 +53,7 @@ impl ContentType {
                 "jpeg" | "jpg" => "image/jpeg",
                 "gif" => "image/gif",
                 "bmp" => "image/bmp",
-                "tiff" => "image/tiff",
+                "tiff" | "tif" => "image/tiff",
                 "svg" => "image/svg+xml",
                 _ => "application/octet-stream",
             },
diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..c8f9493 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,7 +3,9 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Default content type mapping (by extension)
 #[derive(Debug, Clone)]
@@ -71,14 +73,30 @@ impl ContentTypesPart {
 
     /// Add a default type
     pub fn add_default(&mut self, extension: impl Into<String>, content_type: impl Into<String>) {
-        self.defaults
-            .push(DefaultType::new(extension, content_type));
+        let new = DefaultType::new(extension, content_type);
+        // An extension may be declared only once
+        match self
+            .defaults
+            .iter_mut()
+            .find(|d| d.extension.eq_ignore_ascii_case(&new.extension))
+        {
+            Some(old) => *old = new,
+            None => self.defaults.push(new),
+        }
     }
 
     /// Add an override type
     pub fn add_override(&mut self, part_name: impl Into<String>, content_type: impl Into<String>) {
-        self.overrides
-            .push(OverrideType::new(part_name, content_type));
+        let new = OverrideType::new(part_name, content_type);
+        // A part may be declared only once
+        match self
+            .overrides
+            .iter_mut()
+            .find(|o| o.part_name.eq_ignore_ascii_case(&new.part_name))
+        {
+            Some(old) => *old = new,
+            None => self.overrides.push(new),
+        }
     }
 
     /// Add presentation part
@@ -160,7 +178,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension),
+                    escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +191,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name),
+                    escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -201,20 +221,34 @@ impl Part for ContentTypesPart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Relationships
+        PartType::ContentTypes
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Xml
+        ContentType::ContentTypes
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
         Ok(self.generate_xml())
     }
 
-    fn from_xml(_xml: &str) -> Result<Self, PptxError> {
-        // TODO: Parse XML
-        Ok(ContentTypesPart::new())
+    fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = ContentTypesPart {
+            defaults: vec![],
+            overrides: vec![],
+        };
+        for elem in root.find_all("Default") {
+            if let (Some(ext), Some(ty)) = (elem.attr("Extension"), elem.attr("ContentType")) {
+                part.add_default(ext, ty);
+            }
+        }
+        for elem in root.find_all("Override") {
+            if let (Some(name), Some(ty)) = (elem.attr("PartName"), elem.attr("ContentType")) {
+                part.add_override(name, ty);
+            }
+        }
+        Ok(part)
     }
 }
 
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index dd459a1..ab44a75 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -155,13 +155,13 @@ impl Part for CorePropertiesPart {
         if let Some(ref created) = self.created {
             elements.push(format!(
                 r#"<dcterms:created xsi:type="dcterms:W3CDTF">{}</dcterms:created>"#,
-                created
+                Self::escape_xml(created)
             ));
         }
         if let Some(ref modified) = self.modified {
             elements.push(format!(
                 r#"<dcterms:modified xsi:type="dcterms:W3CDTF">{}</dcterms:modified>"#,
-                modified
+                Self::escape_xml(modified)
             ));
         }
 
diff --git a/src/parts/image.rs b/src/parts/image.rs
index 6609d43..b1a1933 100644
--- a/src/parts/image.rs
+++ b/src/parts/image.rs
@@ -87,6 +87,7 @@ impl ImagePart {
             "gif" => "image/gif",
             "bmp" => "image/bmp",
             "tiff" | "tif" => "image/tiff",
+            "svg" => "image/svg+xml",
             _ => "application/octet-stream",
         }
     }
diff --git a/src/parts/media.rs b/src/parts/media.rs
index c0dfb1e..506bf75 100644
--- a/src/parts/media.rs
+++ b/src/parts/media.rs
@@ -175,11 +175,11 @@ impl Part for MediaPart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Image // Media uses similar handling to images
+        PartType::Media
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Image(self.format.extension().to_string())
+        ContentType::Media(self.format.extension().to_string())
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
diff --git a/src/parts/notes_slide.rs b/src/parts/notes_slide.rs
index b5e39fb..8a3f978 100644
--- a/src/parts/notes_slide.rs
+++ b/src/parts/notes_slide.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Notes slide part (ppt/notesSlides/notesSlideN.xml)
 #[derive(Debug, Clone)]
@@ -131,11 +132,11 @@ impl Part for NotesSlidePart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Slide // Notes are associated with slides
+        PartType::NotesSlide
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Xml // Notes have their own content type
+        ContentType::NotesSlide
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
@@ -146,11 +147,30 @@ impl Part for NotesSlidePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let notes_text = root
+            .find_all_descendants("sp")
+            .into_iter()
+            .find(|sp| sp.find_descendant("ph").and_then(|ph| ph.attr("type")) == Some("body"))
+            .map(|sp| {
+                sp.find_all_descendants("p")
+                    .into_iter()
+                    .map(|p| {
+                        p.find_all_descendants("t")
+                            .into_iter()
+                            .map(|t| t.text_content())
+                            .collect::<String>()
+                    })
+                    .collect::<Vec<_>>()
+                    .join("\n")
+            })
+            .unwrap_or_default();
+
         Ok(NotesSlidePart {
             path: "ppt/notesSlides/notesSlide1.xml".to_string(),
             notes_number: 1,
             slide_rel_id: "rId1".to_string(),
-            notes_text: String::new(),
+            notes_text,
             xml_content: Some(xml.to_string()),
         })
     }
diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index e571887..1a561d8 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -4,6 +4,7 @@
 
 use super::base::{ContentType, Part, PartType};
 use super::relationships::{RelationshipType, Relationships};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -50,7 +51,11 @@ impl PresentationPart {
 
     /// Add a slide reference
     pub fn add_slide(&mut self, r_id: &str) -> u32 {
-        let id = 256 + self.slide_refs.len() as u32 + 1;
+        // Identifiers start at 257 and are unique, also among slides read from a file
+        let mut id = 256 + self.slide_refs.len() as u32 + 1;
+        while self.slide_refs.iter().any(|s| s.id == id) {
+            id += 1;
+        }
         self.slide_refs.push(SlideRef {
             id,
             r_id: r_id.to_string(),
@@ -74,30 +79,42 @@ impl PresentationPart {
         self.slide_height = height;
     }
 
+    /// First automatic relationship ID that no other relationship uses
+    fn free_r_id(&self, taken: &[&str]) -> String {
+        (1u32..)
+            .map(|n| format!("rId{}", n))
+            .find(|id| {
+                !taken.contains(&id.as_str()) && !self.slide_refs.iter().any(|s| &s.r_id == id)
+            })
+            .unwrap_or_default()
+    }
+
+    /// Relationship ID of the slide master
+    fn master_r_id(&self) -> String {
+        match self.slide_master_r_id {
+            Some(ref r_id) => r_id.clone(),
+            None => self.free_r_id(&[self.theme_r_id.as_deref().unwrap_or("")]),
+        }
+    }
+
     /// Create default relationships for presentation
     pub fn create_relationships(&self) -> Relationships {
         let mut rels = Relationships::new();
 
         // Add slide master
-        if let Some(ref r_id) = self.slide_master_r_id {
-            rels.add_with_id(
-                r_id,
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        } else {
-            rels.add(
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        }
+        let master_r_id = self.master_r_id();
+        rels.add_with_id(
+            &master_r_id,
+            RelationshipType::SlideMaster,
+            "slideMasters/slideMaster1.xml",
+        );
 
         // Add theme
-        if let Some(ref r_id) = self.theme_r_id {
-            rels.add_with_id(r_id, RelationshipType::Theme, "theme/theme1.xml");
-        } else {
-            rels.add(RelationshipType::Theme, "theme/theme1.xml");
-        }
+        let theme_r_id = match self.theme_r_id {
+            Some(ref r_id) => r_id.clone(),
+            None => self.free_r_id(&[&master_r_id]),
+        };
+        rels.add_with_id(&theme_r_id, RelationshipType::Theme, "theme/theme1.xml");
 
         // Add slides
         for (i, slide_ref) in self.slide_refs.iter().enumerate() {
@@ -136,11 +153,12 @@ impl Part for PresentationPart {
         for slide_ref in &self.slide_refs {
             slide_id_list.push_str(&format!(
                 "\n<p:sldId id=\"{}\" r:id=\"{}\"/>",
-                slide_ref.id, slide_ref.r_id
+                slide_ref.id,
+                escape_xml(&slide_ref.r_id)
             ));
         }
 
-        let master_r_id = self.slide_master_r_id.as_deref().unwrap_or("rId1");
+        let master_r_id = escape_xml(&self.master_r_id());
 
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..0f3a4b5 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -2,7 +2,7 @@
 //!
 //! Manages relationships between parts in a PPTX package.
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -40,27 +40,20 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
-        }
+        [
+            RelationshipType::OfficeDocument,
+            RelationshipType::Slide,
+            RelationshipType::SlideLayout,
+            RelationshipType::SlideMaster,
+            RelationshipType::Theme,
+            RelationshipType::Image,
+            RelationshipType::Chart,
+            RelationshipType::CoreProperties,
+            RelationshipType::ExtendedProperties,
+        ]
+        .into_iter()
+        .find(|known| known.uri() == uri)
+        .unwrap_or_else(|| RelationshipType::Custom(uri.to_string()))
     }
 }
 
@@ -70,6 +63,8 @@ pub struct Relationship {
     pub id: String,
     pub rel_type: RelationshipType,
     pub target: String,
+    /// Target mode ("External" for targets outside the package)
+    pub target_mode: Option<String>,
 }
 
 impl Relationship {
@@ -79,16 +74,23 @@ impl Relationship {
             id: id.to_string(),
             rel_type,
             target: target.to_string(),
+            target_mode: None,
         }
     }
 
     /// Generate XML for this relationship
     pub fn to_xml(&self) -> String {
+        let mode = self
+            .target_mode
+            .as_ref()
+            .map(|m| format!(r#" TargetMode="{}""#, escape_xml(m)))
+            .unwrap_or_default();
         format!(
-            r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
-            self.rel_type.uri(),
-            self.target
+            r#"<Relationship Id="{}" Type="{}" Target="{}"{}/>"#,
+            escape_xml(&self.id),
+            escape_xml(self.rel_type.uri()),
+            escape_xml(&self.target),
+            mode
         )
     }
 }
@@ -100,10 +102,16 @@ impl ToXml for Relationship {
 }
 
 /// Collection of relationships
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Relationships {
     relationships: Vec<Relationship>,
-    next_id: u32,
+    next_id: u64,
+}
+
+impl Default for Relationships {
+    fn default() -> Self {
+        Self::new()
+    }
 }
 
 impl Relationships {
@@ -130,8 +138,8 @@ impl Relationships {
             .push(Relationship::new(id, rel_type, target));
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
-            && num >= self.next_id {
-                self.next_id = num + 1;
+            && u64::from(num) >= self.next_id {
+                self.next_id = u64::from(num) + 1;
             }
     }
 
@@ -199,6 +207,9 @@ impl Relationships {
                 rel_elem.attr("Target"),
             ) {
                 rels.add_with_id(id, RelationshipType::from_uri(rel_type), target);
+                if let Some(last) = rels.relationships.last_mut() {
+                    last.target_mode = rel_elem.attr("TargetMode").map(|s| s.to_string());
+                }
             }
         }
 
diff --git a/src/parts/slide.rs b/src/parts/slide.rs
index 1dffcf1..dce898b 100644
--- a/src/parts/slide.rs
+++ b/src/parts/slide.rs
@@ -56,6 +56,7 @@ impl SlidePart {
     pub fn set_content(&mut self, content: SlideContent) {
         self.content = Some(content);
         self.xml_content = None; // Clear cached XML
+        self.parsed = None;
     }
 
     /// Get parsed slide if available
diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..0cada8e 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -3,7 +3,9 @@
 //! Represents a slide layout template (ppt/slideLayouts/slideLayoutN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide layout types
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -58,6 +60,26 @@ impl LayoutType {
             LayoutType::Custom => "cust",
         }
     }
+
+    /// Get the layout type from its attribute value
+    fn from_type_value(value: &str) -> Self {
+        [
+            LayoutType::Title,
+            LayoutType::TitleAndContent,
+            LayoutType::SectionHeader,
+            LayoutType::TwoContent,
+            LayoutType::Comparison,
+            LayoutType::TitleOnly,
+            LayoutType::Blank,
+            LayoutType::ContentWithCaption,
+            LayoutType::PictureWithCaption,
+            LayoutType::TitleAndVerticalText,
+            LayoutType::VerticalTitleAndText,
+        ]
+        .into_iter()
+        .find(|t| t.type_value() == value)
+        .unwrap_or(LayoutType::Custom)
+    }
 }
 
 /// Slide layout part (ppt/slideLayouts/slideLayoutN.xml)
@@ -140,7 +162,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            escape_xml(&self.name)
         )
     }
 }
@@ -166,11 +188,22 @@ impl Part for SlideLayoutPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let layout_type = match root.attr("type") {
+            Some(value) => LayoutType::from_type_value(value),
+            None => LayoutType::Custom,
+        };
+        let name = root
+            .find("cSld")
+            .and_then(|c_sld| c_sld.attr("name"))
+            .unwrap_or("Layout")
+            .to_string();
+
         Ok(SlideLayoutPart {
             path: "ppt/slideLayouts/slideLayout1.xml".to_string(),
             layout_number: 1,
-            layout_type: LayoutType::TitleAndContent,
-            name: "Layout".to_string(),
+            layout_type,
+            name,
             master_rel_id: "rId1".to_string(),
             xml_content: Some(xml.to_string()),
         })
diff --git a/src/parts/slide_master.rs b/src/parts/slide_master.rs
index 41d7516..58e4671 100644
--- a/src/parts/slide_master.rs
+++ b/src/parts/slide_master.rs
@@ -3,7 +3,9 @@
 //! Represents a slide master template (ppt/slideMasters/slideMasterN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide master part (ppt/slideMasters/slideMasterN.xml)
 #[derive(Debug, Clone)]
@@ -68,11 +70,12 @@ impl SlideMasterPart {
         let layout_ids: String = self
             .layout_rel_ids
             .iter()
-            .map(|id| {
+            .enumerate()
+            .map(|(i, id)| {
                 format!(
                     r#"<p:sldLayoutId id="{}" r:id="{}"/>"#,
-                    2147483649 + self.layout_rel_ids.iter().position(|x| x == id).unwrap() as u64,
-                    id
+                    2147483649 + i as u64,
+                    escape_xml(id)
                 )
             })
             .collect::<Vec<_>>()
@@ -142,12 +145,19 @@ impl Part for SlideMasterPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let layout_rel_ids = root
+            .find_all_descendants("sldLayoutId")
+            .into_iter()
+            .filter_map(|e| e.attr("r:id").map(|s| s.to_string()))
+            .collect();
+
         Ok(SlideMasterPart {
             path: "ppt/slideMasters/slideMaster1.xml".to_string(),
             master_number: 1,
             name: "Office Theme".to_string(),
             theme_rel_id: "rId1".to_string(),
-            layout_rel_ids: vec![],
+            layout_rel_ids,
             xml_content: Some(xml.to_string()),
         })
     }
diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..5f3da34 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -102,17 +102,23 @@ impl CellBorder {
 
     pub fn to_xml(&self, tag: &str) -> String {
         if self.style == BorderStyle::None {
-            return format!("<a:{}/>\n", tag);
+            return format!("<a:{}><a:noFill/></a:{}>\n", tag, tag);
         }
+        // A double line is a compound line, not a dash pattern
+        let (compound, dash) = match self.style {
+            BorderStyle::Double => ("dbl", "solid"),
+            style => ("sng", style.as_str()),
+        };
         format!(
-            r#"<a:{} w="{}" cap="flat" cmpd="sng" algn="ctr">
+            r#"<a:{} w="{}" cap="flat" cmpd="{}" algn="ctr">
               <a:solidFill><a:srgbClr val="{}"/></a:solidFill>
               <a:prstDash val="{}"/>
             </a:{}>"#,
             tag,
             self.width,
+            compound,
             self.color.trim_start_matches('#'),
-            self.style.as_str(),
+            dash,
             tag
         )
     }
@@ -356,9 +362,18 @@ impl TableCellPart {
 
     /// Generate XML for this cell
     pub fn to_xml(&self) -> String {
+        self.to_xml_merged(true, false)
+    }
+
+    /// Generate XML for this cell; a placeholder continues a cell to its left or above it
+    fn to_xml_merged(&self, h_merge: bool, v_merge: bool) -> String {
         // Handle merged cells (placeholders)
         if self.is_merged {
-            return r#"<a:tc hMerge="1"><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#.to_string();
+            return format!(
+                r#"<a:tc{}{}><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#,
+                if h_merge { r#" hMerge="1""# } else { "" },
+                if v_merge { r#" vMerge="1""# } else { "" }
+            );
         }
 
         let mut attrs = String::new();
@@ -415,11 +430,11 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
-        let p_pr = if self.h_align == HorizontalAlign::Center {
+        let p_pr = if self.h_align == HorizontalAlign::Left {
             String::new()
         } else {
             format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str())
@@ -499,15 +514,26 @@ impl TableRowPart {
 
     /// Generate XML for this row
     pub fn to_xml(&self) -> String {
-        let height_attr = self
-            .height
-            .map(|h| format!(r#" h="{}""#, h))
-            .unwrap_or_default();
+        self.to_xml_merged(&[])
+    }
+
+    /// Generate XML for this row, given the merge flags of its cells
+    fn to_xml_merged(&self, merges: &[(bool, bool)]) -> String {
+        // The height is a required attribute
+        let height_attr = format!(r#" h="{}""#, self.height.unwrap_or(370840));
 
         let cells_xml: String = self
             .cells
             .iter()
-            .map(|c| c.to_xml())
+            .enumerate()
+            .map(|(i, c)| {
+                let (h_merge, v_merge) = merges.get(i).copied().unwrap_or((false, false));
+                if h_merge || v_merge {
+                    c.to_xml_merged(h_merge, v_merge)
+                } else {
+                    c.to_xml()
+                }
+            })
             .collect::<Vec<_>>()
             .join("\n        ");
 
@@ -582,6 +608,28 @@ impl TablePart {
         self
     }
 
+    /// Whether each cell continues a spanning cell to its left and above it
+    fn merges(&self) -> Vec<Vec<(bool, bool)>> {
+        let mut merges: Vec<Vec<(bool, bool)>> = self
+            .rows
+            .iter()
+            .map(|r| vec![(false, false); r.cells.len()])
+            .collect();
+        for (i, row) in self.rows.iter().enumerate() {
+            for (j, cell) in row.cells.iter().enumerate().filter(|(_, c)| !c.is_merged) {
+                let below = merges.iter_mut().skip(i).take(cell.row_span.max(1) as usize);
+                for (di, covered) in below.enumerate() {
+                    let right = covered.iter_mut().skip(j).take(cell.col_span.max(1) as usize);
+                    for (dj, merge) in right.enumerate() {
+                        merge.0 |= dj > 0;
+                        merge.1 |= di > 0;
+                    }
+                }
+            }
+        }
+        merges
+    }
+
     /// Generate table XML for embedding in a slide
     pub fn to_slide_xml(&self, shape_id: usize) -> String {
         let grid_cols: String = self
@@ -594,7 +642,8 @@ impl TablePart {
         let rows_xml: String = self
             .rows
             .iter()
-            .map(|r| r.to_xml())
+            .zip(self.merges())
+            .map(|(r, merges)| r.to_xml_merged(&merges))
             .collect::<Vec<_>>()
             .join("\n      ");
 
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..c3e1f88 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -3,7 +3,9 @@
 //! Represents a theme (ppt/theme/themeN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Theme color
 #[derive(Debug, Clone)]
@@ -126,8 +128,10 @@ impl ThemePart {
             .iter()
             .map(|c| {
                 format!(
-                    r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, c.value, c.name
+                    r#"<a:{}><a:srgbClr val="{}"/></a:{}>"#,
+                    c.name,
+                    escape_xml(c.value.trim_start_matches('#')),
+                    c.name
                 )
             })
             .collect::<Vec<_>>()
@@ -178,7 +182,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            escape_xml(&self.name),
+            colors_xml,
+            escape_xml(&self.major_font.typeface),
+            escape_xml(&self.minor_font.typeface)
         )
     }
 }
@@ -204,10 +211,11 @@ impl Part for ThemePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
         Ok(ThemePart {
             path: "ppt/theme/theme1.xml".to_string(),
             theme_number: 1,
-            name: "Office Theme".to_string(),
+            name: root.attr("name").unwrap_or("Office Theme").to_string(),
             major_font: ThemeFont::new("Calibri Light"),
             minor_font: ThemeFont::new("Calibri"),
             colors: Self::default_colors(),
-- 
2.43.0


From a494f1b62fafa4a9159a04634d35255ebe5c349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:18 +0000
Subject: [PATCH 50/81] fix: never hand out a relationship id that is taken

---
 src/parts/relationships.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 0f3a4b5..3e022ff 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -105,7 +105,7 @@ impl ToXml for Relationship {
 #[derive(Debug, Clone)]
 pub struct Relationships {
     relationships: Vec<Relationship>,
-    next_id: u64,
+    next_id: u32,
 }
 
 impl Default for Relationships {
@@ -125,8 +125,12 @@ impl Relationships {
 
     /// Add a relationship and return its ID
     pub fn add(&mut self, rel_type: RelationshipType, target: &str) -> String {
-        let id = format!("rId{}", self.next_id);
-        self.next_id += 1;
+        let mut id = format!("rId{}", self.next_id);
+        while self.get(&id).is_some() {
+            self.next_id = self.next_id.wrapping_add(1);
+            id = format!("rId{}", self.next_id);
+        }
+        self.next_id = self.next_id.wrapping_add(1);
         self.relationships
             .push(Relationship::new(&id, rel_type, target));
         id
@@ -138,8 +142,8 @@ impl Relationships {
             .push(Relationship::new(id, rel_type, target));
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
-            && u64::from(num) >= self.next_id {
-                self.next_id = u64::from(num) + 1;
+            && num >= self.next_id {
+                self.next_id = num.wrapping_add(1);
             }
     }
 
-- 
2.43.0


From f421b8df1d953524b0c34c15f05dec1c9fea5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 51/81] fix: write every set attribute of a text run, and none
 out of range

---
 src/generator/text/format.rs    |  2 +-
 src/generator/text/paragraph.rs |  4 ++--
 src/generator/text/rtl.rs       |  2 +-
 src/generator/text/run.rs       | 16 +++++++++++++---
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/generator/text/format.rs b/src/generator/text/format.rs
index 28a78bb..2c8ebec 100644
--- a/src/generator/text/format.rs
+++ b/src/generator/text/format.rs
@@ -110,7 +110,7 @@ impl TextFormat {
         }
 
         if let Some(size) = self.font_size {
-            attrs.push_str(&format!(" sz=\"{}\"", size * 100));
+            attrs.push_str(&format!(" sz=\"{}\"", size.saturating_mul(100)));
         }
 
         attrs
diff --git a/src/generator/text/paragraph.rs b/src/generator/text/paragraph.rs
index 6e9c2f7..d990b89 100644
--- a/src/generator/text/paragraph.rs
+++ b/src/generator/text/paragraph.rs
@@ -69,13 +69,13 @@ impl Paragraph {
 
     /// Set spacing before (in points)
     pub fn spacing_before(mut self, points: u32) -> Self {
-        self.spacing_before = Some(points * 100);
+        self.spacing_before = Some(points.saturating_mul(100));
         self
     }
 
     /// Set spacing after (in points)
     pub fn spacing_after(mut self, points: u32) -> Self {
-        self.spacing_after = Some(points * 100);
+        self.spacing_after = Some(points.saturating_mul(100));
         self
     }
 
diff --git a/src/generator/text/rtl.rs b/src/generator/text/rtl.rs
index 894dab9..cda8f43 100644
--- a/src/generator/text/rtl.rs
+++ b/src/generator/text/rtl.rs
@@ -126,7 +126,7 @@ impl RtlTextProps {
     pub fn to_rpr_xml_attrs(&self) -> String {
         let mut attrs = String::new();
         if let Some(ref lang) = self.language {
-            attrs.push_str(&format!(r#" lang="{lang}""#));
+            attrs.push_str(&format!(r#" lang="{}""#, super::escape_xml(lang)));
         }
         attrs
     }
diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..07701a2 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -64,22 +64,32 @@ impl Run {
 
     /// Generate XML for this run
     pub fn to_xml(&self) -> String {
-        let size = self.format.font_size.unwrap_or(18) * 100;
+        let size = self.format.font_size.unwrap_or(18).saturating_mul(100);
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
+        let strike = if self.format.strikethrough { " strike=\"sngStrike\"" } else { "" };
+        let baseline = if self.format.subscript {
+            " baseline=\"-25000\""
+        } else if self.format.superscript {
+            " baseline=\"30000\""
+        } else {
+            ""
+        };
         
         let color_xml = self.format.color.as_ref()
             .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
             .unwrap_or_default();
+        let highlight_xml = self.format.to_highlight_xml();
         
         let font_xml = self.format.font_family.as_ref()
             .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         format!(
-            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{} dirty="0">{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
-            size, bold, italic, underline, color_xml, font_xml, escape_xml(&self.text)
+            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{}{}{} dirty="0">{}{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
+            size, bold, italic, underline, strike, baseline,
+            color_xml, highlight_xml, font_xml, escape_xml(&self.text)
         )
     }
 }
-- 
2.43.0


From 4e297f6cee991fadbb3e1c292c96ffd7455010c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 52/81] fix: valid path kind, angle and alpha in gradient fills

---
 src/generator/gradients.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..9076dec 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -22,7 +22,7 @@ impl GradientType {
             GradientType::Linear => "lin",
             GradientType::Radial => "circle",
             GradientType::Rectangular => "rect",
-            GradientType::Path => "path",
+            GradientType::Path => "shape",
         }
     }
 }
@@ -50,7 +50,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => deg % 360 * 60000,
         }
     }
 }
@@ -251,7 +251,7 @@ pub fn generate_gradient_fill_xml(gradient: &GradientFill) -> String {
         ));
 
         if let Some(alpha) = stop.transparency {
-            xml.push_str(&format!(r#"><a:alpha val="{}"/></a:srgbClr>"#, 100000 - alpha));
+            xml.push_str(&format!(r#"><a:alpha val="{}"/></a:srgbClr>"#, 100000u32.saturating_sub(alpha)));
         } else {
             xml.push_str("/>");
         }
-- 
2.43.0


From 265a2c01aeef849ee40f00879d9083f3b9f5cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 53/81] fix: distinct section ids and bounded section ranges

---
 src/generator/slide_content/sections.rs | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index cc34795..38d47a7 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -26,13 +26,15 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index
+            .checked_sub(self.first_slide)
+            .is_some_and(|offset| offset < self.slide_count)
     }
 }
 
@@ -125,18 +127,22 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
-        for section in &self.sections {
+        for (i, section) in self.sections.iter().enumerate() {
+            // Sections may share a name, but not an id
+            let namesakes = self.sections[..i].iter().filter(|s| s.name == section.name).count();
+            let mut id = generate_section_id(&section.name);
+            if namesakes > 0 {
+                id = generate_section_id(&format!("{}\u{0}{namesakes}", section.name));
+            }
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 xml_escape(&section.name),
-                generate_section_id(&section.name),
+                id,
             ));
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for slide in section.first_slide..end {
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, 256 + slide));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
@@ -152,7 +158,7 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide <= b.last_slide() && b.first_slide <= a.last_slide()
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From 3fffa9274ae12424671b15aed54816225238b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 54/81] fix: give each comment of an author its own index

---
 src/generator/slide_content/comments.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 1b47c36..9e2b3e4 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -178,7 +178,15 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let idx = self
+            .comments
+            .iter()
+            .filter(|c| c.author_id == author_id)
+            .map(|c| c.index)
+            .chain([self.comments.len() as u32])
+            .max()
+            .unwrap_or(0)
+            .saturating_add(1);
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From 43408a34aff55c9e7953d4ec6937946bbd8ba2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 55/81] fix: show the poster image of a video

---
 src/generator/media.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/media.rs b/src/generator/media.rs
index dc4b1a4..a3a357b 100644
--- a/src/generator/media.rs
+++ b/src/generator/media.rs
@@ -362,7 +362,7 @@ impl Audio {
 }
 
 /// Generate video XML for slide
-pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, _image_r_id: &str) -> String {
+pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, image_r_id: &str) -> String {
     let alt_text = video.alt_text.as_deref().unwrap_or("Video");
 
     format!(
@@ -400,7 +400,7 @@ pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, _ima
 </p:spPr>
 </p:pic>"#,
         shape_id, shape_id, escape_xml(alt_text),
-        video_r_id, video_r_id, video_r_id,
+        video_r_id, video_r_id, image_r_id,
         video.x, video.y, video.width, video.height
     )
 }
-- 
2.43.0


From 025f1e4d77191a66453d5c2ab504327e8b0bfd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 56/81] fix: slide jump action and escaped ids in hyperlinks

---
 src/generator/hyperlinks.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..82879fb 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -91,6 +91,7 @@ impl HyperlinkAction {
     /// Get the action type for internal links
     pub fn action_type(&self) -> Option<&'static str> {
         match self {
+            HyperlinkAction::Slide(_) => Some("ppaction://hlinksldjump"),
             HyperlinkAction::FirstSlide => Some("ppaction://hlinkshowjump?jump=firstslide"),
             HyperlinkAction::LastSlide => Some("ppaction://hlinkshowjump?jump=lastslide"),
             HyperlinkAction::NextSlide => Some("ppaction://hlinkshowjump?jump=nextslide"),
@@ -161,7 +162,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -182,7 +183,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -211,7 +212,7 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
 
     format!(
         r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
-        r_id,
+        escape_xml(r_id),
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From 36ad07473bd170f77a88a0ae7cd649e4dc48a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 57/81] fix: schema order of inline code run properties

---
 src/generator/slide/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 95255a3..aef5378 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -119,7 +119,7 @@ pub fn generate_rich_text_runs(
         
         if segment.code {
             xml.push_str(&format!(
-                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill></a:rPr><a:t>{}</a:t></a:r>"#,
+                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r>"#,
                 size, escaped_text
             ));
         } else {
-- 
2.43.0


From e206aabdeca20983eb28509824f3ab847828d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 58/81] fix: keep the direction of connecting arrows

---
 src/generator/shapes_xml.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index d2aa263..61a4a9b 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -440,6 +440,8 @@ pub fn generate_connector_xml(
     color: &str,
     width: u32,
 ) -> String {
+    let flip_h = if end_x < start_x { r#" flipH="1""# } else { "" };
+    let flip_v = if end_y < start_y { r#" flipV="1""# } else { "" };
     format!(
         r#"<p:cxnSp>
 <p:nvCxnSpPr>
@@ -448,7 +450,7 @@ pub fn generate_connector_xml(
 <p:nvPr/>
 </p:nvCxnSpPr>
 <p:spPr>
-<a:xfrm>
+<a:xfrm{}{}>
 <a:off x="{}" y="{}"/>
 <a:ext cx="{}" cy="{}"/>
 </a:xfrm>
@@ -465,6 +467,8 @@ pub fn generate_connector_xml(
 </p:cxnSp>"#,
         shape_id,
         shape_id,
+        flip_h,
+        flip_v,
         start_x.min(end_x),
         start_y.min(end_y),
         (end_x as i64 - start_x as i64).unsigned_abs() as u32,
-- 
2.43.0


From 8588bd683d6513293af369bb2724abc7682e9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 59/81] fix: encode the subject of email links

---
 src/generator/hyperlinks.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 82879fb..4ff0301 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -72,7 +72,7 @@ impl HyperlinkAction {
             HyperlinkAction::Email { address, subject } => {
                 let mut mailto = format!("mailto:{}", address);
                 if let Some(subj) = subject {
-                    mailto.push_str(&format!("?subject={}", subj));
+                    mailto.push_str(&format!("?subject={}", percent_encode(subj)));
                 }
                 mailto
             }
@@ -160,6 +160,18 @@ impl Hyperlink {
     }
 }
 
+/// Encode a value for a URI query
+fn percent_encode(value: &str) -> String {
+    let mut encoded = String::with_capacity(value.len());
+    for byte in value.bytes() {
+        match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => encoded.push(byte as char),
+            _ => encoded.push_str(&format!("%{byte:02X}")),
+        }
+    }
+    encoded
+}
+
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
-- 
2.43.0


From 12c55eb258381db9715328cd6bfe793d26a4414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:34 +0000
Subject: [PATCH 60/81] fix: helper layouts and colours for every input

---
 src/elements/color.rs       |  2 +-
 src/generator/shapes_xml.rs |  2 +-
 src/helpers/colors.rs       |  4 +++-
 src/helpers/mod.rs          |  2 +-
 src/prelude.rs              | 33 ++++++++++++++++++++-------------
 5 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..04815f0 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 61a4a9b..a195dae 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -313,7 +313,7 @@ fn estimate_wrapped_lines(_text: &str, lines: &[&str]) -> (f64, f64) {
 /// Calculate if a color is dark (needs white text) or light (needs black text)
 fn is_dark_color(hex_color: &str) -> bool {
     let hex = hex_color.trim_start_matches('#');
-    if hex.len() < 6 {
+    if hex.len() < 6 || !hex.is_ascii() {
         return false; // Default to light
     }
     
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..e8842da 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,7 +31,9 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if !hex.is_ascii() {
+            Self::rgb(0, 0, 0)
+        } else if hex.len() == 6 {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4c6babf 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.is_ascii() {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..b94aec9 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -111,7 +111,7 @@ pub mod font_sizes {
 
     /// Convert points to OOXML size units (hundredths of a point)
     pub fn to_emu(pt: u32) -> u32 {
-        pt * 100
+        pt.saturating_mul(100)
     }
 }
 
@@ -704,12 +704,12 @@ pub mod layouts {
 
     /// Center a shape on the slide (horizontal)
     pub fn center_x(shape_width: u32) -> u32 {
-        (SLIDE_WIDTH - shape_width) / 2
+        SLIDE_WIDTH.saturating_sub(shape_width) / 2
     }
 
     /// Center a shape on the slide (vertical)
     pub fn center_y(shape_height: u32) -> u32 {
-        (SLIDE_HEIGHT - shape_height) / 2
+        SLIDE_HEIGHT.saturating_sub(shape_height) / 2
     }
 
     /// Get position for centering a shape both horizontally and vertically
@@ -721,15 +721,15 @@ pub mod layouts {
     /// Returns Vec of (x, y) positions
     pub fn grid(rows: usize, cols: usize, cell_width: u32, cell_height: u32) -> Vec<(u32, u32)> {
         let mut positions = Vec::new();
-        let total_width = cell_width * cols as u32;
-        let total_height = cell_height * rows as u32;
+        let total_width = cell_width.saturating_mul(cols as u32);
+        let total_height = cell_height.saturating_mul(rows as u32);
         let start_x = center_x(total_width);
         let start_y = center_y(total_height);
 
         for row in 0..rows {
             for col in 0..cols {
-                let x = start_x + (col as u32 * cell_width);
-                let y = start_y + (row as u32 * cell_height);
+                let x = start_x.saturating_add((col as u32).saturating_mul(cell_width));
+                let y = start_y.saturating_add((row as u32).saturating_mul(cell_height));
                 positions.push((x, y));
             }
         }
@@ -743,11 +743,14 @@ pub mod layouts {
         spacing: u32,
         y: u32,
     ) -> Vec<(u32, u32)> {
-        let total_width = (shape_width * count as u32) + (spacing * (count - 1) as u32);
+        let total_width = shape_width
+            .saturating_mul(count as u32)
+            .saturating_add(spacing.saturating_mul(count.saturating_sub(1) as u32));
+        let step = shape_width.saturating_add(spacing);
         let start_x = center_x(total_width);
 
         (0..count)
-            .map(|i| (start_x + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (start_x.saturating_add((i as u32).saturating_mul(step)), y))
             .collect()
     }
 
@@ -758,11 +761,14 @@ pub mod layouts {
         spacing: u32,
         x: u32,
     ) -> Vec<(u32, u32)> {
-        let total_height = (shape_height * count as u32) + (spacing * (count - 1) as u32);
+        let total_height = shape_height
+            .saturating_mul(count as u32)
+            .saturating_add(spacing.saturating_mul(count.saturating_sub(1) as u32));
+        let step = shape_height.saturating_add(spacing);
         let start_y = center_y(total_height);
 
         (0..count)
-            .map(|i| (x, start_y + (i as u32 * (shape_height + spacing))))
+            .map(|i| (x, start_y.saturating_add((i as u32).saturating_mul(step))))
             .collect()
     }
 
@@ -776,10 +782,11 @@ pub mod layouts {
         }
 
         let usable_width = SLIDE_WIDTH - (2 * MARGIN);
-        let spacing = (usable_width - (shape_width * count as u32)) / (count as u32 - 1);
+        // Shapes too wide to fit side by side overlap, but stay within the margins
+        let step = usable_width.saturating_sub(shape_width) / (count as u32 - 1);
 
         (0..count)
-            .map(|i| (MARGIN + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (MARGIN + (i as u32 * step), y))
             .collect()
     }
 }
-- 
2.43.0


From a2f0ac2075e44f1e139ed55e6f8c48b0c05cf16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:09 +0000
Subject: [PATCH 61/81] fix: refuse XML nested too deeply instead of
 overflowing the stack

---
 src/oxml/xmlchemy.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index b33ab0f..e3a8831 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -131,6 +131,9 @@ impl XmlElement {
     }
 }
 
+/// Deepest nesting accepted: trees are walked and dropped recursively
+const MAX_DEPTH: usize = 1000;
+
 /// XML Parser for Office XML documents
 pub struct XmlParser;
 
@@ -174,6 +177,11 @@ impl XmlParser {
                         element.set_attr(&attr_name, &attr.value);
                     }
 
+                    if stack.len() >= MAX_DEPTH {
+                        return Err(PptxError::XmlParse(format!(
+                            "elements nested deeper than {MAX_DEPTH} levels"
+                        )));
+                    }
                     stack.push(element);
                 }
                 Ok(XmlEvent::Whitespace(text)) => {
-- 
2.43.0


From 604ef30d9a25f822acd1ef45705928e4536c5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 62/81] fix: image sizes from unusual file headers

---
 src/generator/images.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 34cc50d..17c0bf1 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,8 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let w_emu = w.saturating_mul(9525);
+        let h_emu = h.saturating_mul(9525);
         
         Ok(Image {
             filename,
@@ -739,7 +739,8 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     // BMP: "BM", width/height as little-endian u32 at offset 18/22
     if data.starts_with(b"BM") && data.len() >= 26 {
         let w = u32::from_le_bytes([data[18], data[19], data[20], data[21]]);
-        let h = u32::from_le_bytes([data[22], data[23], data[24], data[25]]);
+        // A negative height only means that the rows are stored top to bottom
+        let h = i32::from_le_bytes([data[22], data[23], data[24], data[25]]).unsigned_abs();
         return Some((w, h, "BMP".into()));
     }
     // WebP: "RIFF....WEBP", VP8 chunk has dimensions
@@ -774,9 +775,16 @@ fn read_jpeg_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
             continue;
         }
         let marker = data[i + 1];
+        if marker == 0xFF {
+            // Fill byte before a marker
+            i += 1;
+            continue;
+        }
         i += 2;
-        // SOF0 (0xC0) or SOF2 (0xC2): height at +3, width at +5 (big-endian u16)
-        if (marker == 0xC0 || marker == 0xC2) && i + 7 < data.len() {
+        // Any SOFn frame header: height at +3, width at +5 (big-endian u16)
+        // (0xC4, 0xC8 and 0xCC are no frame headers)
+        let is_frame = matches!(marker, 0xC0..=0xCF) && !matches!(marker, 0xC4 | 0xC8 | 0xCC);
+        if is_frame && i + 7 < data.len() {
             let h = u16::from_be_bytes([data[i + 3], data[i + 4]]) as u32;
             let w = u16::from_be_bytes([data[i + 5], data[i + 6]]) as u32;
             return Some((w, h, "JPEG".into()));
-- 
2.43.0


From c395610f9386e20b45cd02c9b5016d2ffeccead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 63/81] fix: extreme sizes, levels and angles do not overflow

---
 src/generator/layouts/common.rs       |  1 +
 src/generator/layouts/two_column.rs   |  4 ++--
 src/generator/shapes.rs               |  2 +-
 src/generator/shapes_xml.rs           |  2 +-
 src/generator/slide_content/bullet.rs |  1 +
 src/generator/slide_xml/layouts.rs    | 27 ++++++++++++++-------------
 src/parts/table.rs                    |  2 +-
 7 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 5409cb8..af9ab84 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -263,6 +263,7 @@ impl SlideXmlBuilder {
     
     /// Add bullet paragraph with specific style
     pub fn add_bullet_with_style(mut self, text: &str, props: &str, level: u32, style: BulletStyle) -> Self {
+        let level = level.min(8); // deepest level of the format
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200 + indent;
         let bullet_xml = style.to_xml();
diff --git a/src/generator/layouts/two_column.rs b/src/generator/layouts/two_column.rs
index d65b0f1..d7654e8 100644
--- a/src/generator/layouts/two_column.rs
+++ b/src/generator/layouts/two_column.rs
@@ -10,8 +10,8 @@ impl TwoColumnLayout {
     /// Generate two-column slide XML
     /// Bullets are automatically split between left and right columns
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(44) * 100;
-        let content_size = content.content_size.unwrap_or(24) * 100;
+        let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+        let content_size = content.content_size.unwrap_or(24).saturating_mul(100);
 
         let title_props = generate_text_props(
             title_size,
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index c3fa6fe..95b55d6 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -493,7 +493,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => deg.saturating_mul(60000),
         }
     }
 }
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index a195dae..2ad0136 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, (rot % 360) * 60000)
     } else {
         String::new()
     };
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index 043ec31..c06609f 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -41,6 +41,7 @@ impl BulletStyle {
     
     /// Get the OOXML indent level XML
     pub fn indent_xml(&self, level: u32) -> String {
+        let level = level.min(8); // deepest level of the format
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200;
         format!(r#"indent="-{}" marL="{}""#, indent, margin_left + indent)
diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 1feb0fd..fd75c72 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -14,7 +14,7 @@ fn generate_bullet_text_props(
 ) -> String {
     if let Some(fmt) = bullet_format {
         let props = ExtendedTextProps {
-            size: fmt.font_size.map(|s| s * 100).unwrap_or(default_props.size),
+            size: fmt.font_size.map(|s| s.saturating_mul(100)).unwrap_or(default_props.size),
             bold: fmt.bold || default_props.bold,
             italic: fmt.italic || default_props.italic,
             underline: fmt.underline || default_props.underline,
@@ -36,8 +36,9 @@ fn generate_bullet_paragraph_from_point(
     bullet: &BulletPoint,
     default_props: &ExtendedTextProps,
 ) -> String {
-    let indent = 457200 + (bullet.level * 457200);
-    let margin_left = bullet.level * 457200 + indent;
+    let level = bullet.level.min(8); // deepest level of the format
+    let indent = 457200 + (level * 457200);
+    let margin_left = level * 457200 + indent;
     let bullet_xml = bullet.style.to_xml();
     let text_props = generate_bullet_text_props(default_props, bullet.format.as_ref());
     
@@ -52,7 +53,7 @@ fn generate_bullet_paragraph_from_point(
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-        bullet.level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
+        level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
     )
 }
 
@@ -74,7 +75,7 @@ pub fn create_title_only_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -106,7 +107,7 @@ pub fn create_section_header_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(48) * 100;
+    let title_size = content.title_size.unwrap_or(48).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         true,
@@ -138,7 +139,7 @@ pub fn create_centered_title_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(54) * 100;
+    let title_size = content.title_size.unwrap_or(54).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -170,8 +171,8 @@ pub fn create_title_and_big_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -276,8 +277,8 @@ pub fn create_two_column_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(24) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(24).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -428,8 +429,8 @@ pub fn create_title_and_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
diff --git a/src/parts/table.rs b/src/parts/table.rs
index 5f3da34..ad0a3c8 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -411,7 +411,7 @@ impl TableCellPart {
             rpr_attrs.push_str(r#" strike="sngStrike""#);
         }
         if let Some(size) = self.font_size {
-            rpr_attrs.push_str(&format!(r#" sz="{}""#, size * 100));
+            rpr_attrs.push_str(&format!(r#" sz="{}""#, size.saturating_mul(100)));
         }
 
         // Text color
-- 
2.43.0


From a8e3fe9a0f1c922a6c3cf8d3057bfcfeefa71915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 64/81] fix: decks made from a template are sound packages

---
 src/generator/builder.rs  |  53 +++++--
 src/generator/template.rs | 296 +++++++++++++++++++++++++++++++++++---
 2 files changed, 313 insertions(+), 36 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 9b66fdd..a75b508 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -545,6 +545,7 @@ fn collect_slide_titles_lazy(slides: &dyn LazySlideSource, slide_count: usize) -
 }
 
 /// Write content types XML
+#[allow(clippy::too_many_arguments)]
 fn write_content_types<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
@@ -553,6 +554,7 @@ fn write_content_types<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let media_exts = custom_slides
         .map(build_media_registry)
@@ -578,6 +580,10 @@ fn write_content_types<W: Write + Seek>(
         .unwrap_or(0);
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
+    if let Some(tmpl) = template {
+        tmpl.apply_content_types(&mut content_types);
+    }
+
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
@@ -608,6 +614,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -617,9 +624,12 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
-    zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    // A template brings its own table styles
+    if template.is_none_or(|t| !t.parts().contains_key("ppt/tableStyles.xml")) {
+        let table_styles = create_table_styles_xml();
+        zip.start_file("ppt/tableStyles.xml", *options)?;
+        zip.write_all(table_styles.as_bytes())?;
+    }
     Ok(())
 }
 
@@ -676,14 +686,19 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
-        for (path, data) in tmpl.parts() {
+        let theme = settings.and_then(|s| s.theme.as_ref());
+        let mut parts: Vec<_> = tmpl.parts().iter().collect();
+        parts.sort();
+        for (path, data) in parts {
+            if theme.is_some() && path == "ppt/theme/theme1.xml" {
+                continue;
+            }
             zip.start_file(path, *options)?;
             zip.write_all(data)?;
         }
-        if let Some(theme) = settings.and_then(|s| s.theme.as_ref()) {
-            let theme_xml = create_theme_xml(Some(theme));
+        if theme.is_some() || !tmpl.parts().contains_key("ppt/theme/theme1.xml") {
             zip.start_file("ppt/theme/theme1.xml", *options)?;
-            zip.write_all(theme_xml.as_bytes())?;
+            zip.write_all(create_theme_xml(theme).as_bytes())?;
         }
         return Ok(());
     }
@@ -776,7 +791,7 @@ fn write_package_files<W: Write + Seek>(
     let chart_info = collect_chart_info(custom_slides);
 
     // 1. Content types
-    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -787,16 +802,19 @@ fn write_package_files<W: Write + Seek>(
     write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref())?;
 
     // 4. Presentation document
-    let presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
+    let mut presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
         create_presentation_xml_with_fonts(title, slide_count, has_notes, has_handout, fonts)
     } else {
         create_presentation_xml(title, slide_count, has_notes, has_handout)
     };
+    if let Some(tmpl) = &template {
+        tmpl.apply_master_id(&mut presentation);
+    }
     zip.start_file("ppt/presentation.xml", *options)?;
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
@@ -876,7 +894,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     let chart_info = collect_chart_info_lazy(slides);
 
     // 1. Content types (lazy version)
-    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -887,16 +905,19 @@ fn write_package_files_lazy<W: Write + Seek>(
     write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref())?;
 
     // 4. Presentation document
-    let presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
+    let mut presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
         create_presentation_xml_with_fonts(title, slide_count, has_notes, has_handout, fonts)
     } else {
         create_presentation_xml(title, slide_count, has_notes, has_handout)
     };
+    if let Some(tmpl) = &template {
+        tmpl.apply_master_id(&mut presentation);
+    }
     zip.start_file("ppt/presentation.xml", *options)?;
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
@@ -950,6 +971,7 @@ fn write_package_files_lazy<W: Write + Seek>(
 }
 
 /// Write content types for lazy slides
+#[allow(clippy::too_many_arguments)]
 fn write_content_types_lazy<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
@@ -958,6 +980,7 @@ fn write_content_types_lazy<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let notes_count = (0..slide_count)
         .filter(|i| {
@@ -1044,6 +1067,10 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
+    if let Some(tmpl) = template {
+        tmpl.apply_content_types(&mut content_types);
+    }
+
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
diff --git a/src/generator/template.rs b/src/generator/template.rs
index 47b5644..e6b619a 100644
--- a/src/generator/template.rs
+++ b/src/generator/template.rs
@@ -1,18 +1,90 @@
 //! Load theme / master / layout parts from an existing PPTX template.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::path::Path;
 
+use crate::core::escape_xml;
 use crate::exc::{PptxError, Result};
+use crate::generator::layout_parts::{append_layout_content_type_overrides, STANDARD_LAYOUT_COUNT};
+use crate::generator::package_xml::SLIDE_MASTER_ID;
 use crate::opc::Package;
+use crate::oxml::xmlchemy::{XmlElement, XmlParser};
+
+const MASTER_PATH: &str = "ppt/slideMasters/slideMaster1.xml";
+const THEME_PATH: &str = "ppt/theme/theme1.xml";
+const TABLE_STYLES_PATH: &str = "ppt/tableStyles.xml";
+const LAYOUT_PREFIX: &str = "ppt/slideLayouts/slideLayout";
 
 /// Theme + master + layout parts cloned from an existing `.pptx` file.
+///
+/// Holds the first slide master of the deck and everything it refers to, under
+/// the names a generated package uses for them.
 #[derive(Clone, Debug, Default)]
 pub struct PptxTemplate {
     parts: HashMap<String, Vec<u8>>,
+    content_types: BTreeMap<String, String>,
+    layout_ids: HashSet<String>,
     layout_count: usize,
 }
 
+fn layout_number(path: &str) -> Option<usize> {
+    let number = path.strip_prefix(LAYOUT_PREFIX)?.strip_suffix(".xml")?;
+    number.parse().ok().filter(|n: &usize| *n > 0 && n.to_string() == number)
+}
+
+fn rels_path_of(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, file)) => format!("{dir}/_rels/{file}.rels"),
+        None => format!("_rels/{path}.rels"),
+    }
+}
+
+fn resolve_target(source: &str, target: &str) -> String {
+    if let Some(absolute) = target.strip_prefix('/') {
+        return absolute.to_string();
+    }
+    let mut segments: Vec<&str> = source.split('/').collect();
+    segments.pop();
+    for segment in target.split('/') {
+        match segment {
+            ".." => {
+                segments.pop();
+            }
+            "." | "" => {}
+            name => segments.push(name),
+        }
+    }
+    segments.join("/")
+}
+
+fn parse_part(pkg: &Package, path: &str) -> Result<Option<XmlElement>> {
+    match pkg.get_part(path) {
+        Some(data) => Ok(Some(XmlParser::parse(data)?)),
+        None => Ok(None),
+    }
+}
+
+/// Relationships of a part: (element, path of the target part unless external)
+fn relationships(pkg: &Package, source: &str) -> Result<Vec<(XmlElement, Option<String>)>> {
+    let Some(root) = parse_part(pkg, &rels_path_of(source))? else {
+        return Ok(Vec::new());
+    };
+    Ok(root
+        .children
+        .into_iter()
+        .filter(|rel| rel.local_name == "Relationship")
+        .map(|rel| {
+            let part = (rel.attr("TargetMode") != Some("External"))
+                .then(|| resolve_target(source, rel.attr("Target").unwrap_or_default()));
+            (rel, part)
+        })
+        .collect())
+}
+
+fn has_type(rel: &XmlElement, kind: &str) -> bool {
+    rel.attr("Type").is_some_and(|t| t.rsplit('/').next() == Some(kind))
+}
+
 impl PptxTemplate {
     /// Load template parts from a `.pptx` on disk.
     pub fn load(path: impl AsRef<Path>) -> Result<Self> {
@@ -22,34 +94,178 @@ impl PptxTemplate {
 
     /// Extract template parts from an opened package.
     pub fn from_package(pkg: &Package) -> Result<Self> {
-        let mut parts = HashMap::new();
-        for path in pkg.part_paths() {
-            if (path.starts_with("ppt/theme/")
-                || path.starts_with("ppt/slideMasters/")
-                || path.starts_with("ppt/slideLayouts/")
-                || path == "ppt/tableStyles.xml")
-                && let Some(data) = pkg.get_part(path) {
-                    parts.insert(path.to_string(), data.to_vec());
-                }
-        }
-
-        if !parts.keys().any(|p| p.starts_with("ppt/slideMasters/")) {
+        let presentation = relationships(pkg, "ppt/presentation.xml")?;
+        let master_id = parse_part(pkg, "ppt/presentation.xml")?
+            .as_ref()
+            .and_then(|p| p.find("sldMasterIdLst"))
+            .and_then(|list| list.find("sldMasterId"))
+            .and_then(|id| id.relationship_id().map(str::to_string));
+        let mut masters = presentation
+            .iter()
+            .filter(|(rel, _)| has_type(rel, "slideMaster"));
+        let master = masters
+            .clone()
+            .find(|(rel, _)| rel.attr("Id") == master_id.as_deref())
+            .or_else(|| masters.next())
+            .and_then(|(_, part)| part.clone())
+            .unwrap_or_else(|| MASTER_PATH.to_string());
+        let Some(master_data) = pkg.get_part(&master) else {
             return Err(PptxError::InvalidValue(
                 "template missing ppt/slideMasters/".into(),
             ));
-        }
+        };
 
-        let layout_count = parts
-            .keys()
-            .filter(|p| {
-                p.starts_with("ppt/slideLayouts/slideLayout")
-                    && p.ends_with(".xml")
-                    && !p.contains("_rels")
+        // The layouts in the order of the master's list, then the theme.
+        let master_rels = relationships(pkg, &master)?;
+        let listed: Vec<String> = XmlParser::parse(master_data)?
+            .find("sldLayoutIdLst")
+            .map(|list| {
+                list.find_all("sldLayoutId")
+                    .iter()
+                    .filter_map(|id| id.relationship_id().map(str::to_string))
+                    .collect()
             })
-            .count()
-            .max(1);
+            .unwrap_or_default();
+        let mut layouts: Vec<(usize, String)> = master_rels
+            .iter()
+            .filter(|(rel, _)| has_type(rel, "slideLayout"))
+            .filter_map(|(rel, part)| {
+                let at = listed.iter().position(|id| rel.attr("Id") == Some(id));
+                Some((at.unwrap_or(listed.len()), part.clone()?))
+            })
+            .filter(|(_, part)| pkg.has_part(part))
+            .collect();
+        layouts.sort();
+        layouts.dedup_by(|a, b| a.1 == b.1);
+        if layouts.is_empty() {
+            return Err(PptxError::InvalidValue(
+                "template missing ppt/slideLayouts/".into(),
+            ));
+        }
+
+        // Names in the generated package
+        let mut names: HashMap<String, String> = HashMap::new();
+        names.insert(master.clone(), MASTER_PATH.to_string());
+        let keep = layouts.iter().all(|(_, part)| layout_number(part).is_some())
+            && layouts.iter().any(|(_, part)| layout_number(part) == Some(1));
+        for (i, (_, part)) in layouts.iter().enumerate() {
+            let number = layout_number(part).filter(|_| keep).unwrap_or(i + 1);
+            names.insert(part.clone(), format!("{LAYOUT_PREFIX}{number}.xml"));
+        }
+        if let Some((_, Some(theme))) = master_rels.iter().find(|(rel, _)| has_type(rel, "theme")) {
+            names.insert(theme.clone(), THEME_PATH.to_string());
+        }
+
+        // Follow the relationships from the master; what it refers to besides
+        // (pictures of a background, say) must not collide with generated parts.
+        let types = parse_part(pkg, "[Content_Types].xml")?;
+        let mut template = PptxTemplate {
+            layout_count: layouts.len(),
+            ..Default::default()
+        };
+        let mut pending: Vec<String> = vec![master];
+        let mut seen: HashSet<String> = pending.iter().cloned().collect();
+        while let Some(source) = pending.pop() {
+            let Some(data) = pkg.get_part(&source) else {
+                continue;
+            };
+            let name = names[&source].clone();
+            if let Some(content_type) = types.as_ref().and_then(|t| content_type_of(t, &source)) {
+                template.content_types.insert(name.clone(), content_type);
+            }
+            // The relationships stay as they are unless a name in them changes.
+            let mut changed = name != source;
+            let mut rels_xml = String::new();
+            for (rel, target) in relationships(pkg, &source)? {
+                let target = match target {
+                    Some(part) => {
+                        let elsewhere = ["slideLayout", "slideMaster", "slide", "presentation"]
+                            .iter()
+                            .any(|kind| has_type(&rel, kind));
+                        if !pkg.has_part(&part) || (elsewhere && !names.contains_key(&part)) {
+                            changed = true;
+                            continue;
+                        }
+                        if seen.insert(part.clone()) {
+                            let (dir, file) = part.rsplit_once('/').unwrap_or(("ppt", &part));
+                            names
+                                .entry(part.clone())
+                                .or_insert_with(|| format!("{dir}/template_{file}"));
+                            pending.push(part.clone());
+                        }
+                        changed |= names[&part] != part;
+                        format!("/{}", names[&part])
+                    }
+                    None => rel.attr("Target").unwrap_or_default().to_string(),
+                };
+                rels_xml.push_str(&format!(
+                    "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>",
+                    escape_xml(rel.attr("Id").unwrap_or_default()),
+                    escape_xml(rel.attr("Type").unwrap_or_default()),
+                    escape_xml(&target),
+                    if rel.attr("TargetMode") == Some("External") {
+                        " TargetMode=\"External\""
+                    } else {
+                        ""
+                    }
+                ));
+            }
+            if !changed {
+                if let Some(rels) = pkg.get_part(&rels_path_of(&source)) {
+                    template.parts.insert(rels_path_of(&name), rels.to_vec());
+                }
+            } else if !rels_xml.is_empty() {
+                template.parts.insert(
+                    rels_path_of(&name),
+                    format!(
+                        "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{rels_xml}\n</Relationships>"
+                    )
+                    .into_bytes(),
+                );
+            }
+            template.parts.insert(name, data.to_vec());
+        }
+        if let Some(styles) = pkg.get_part(TABLE_STYLES_PATH) {
+            template.parts.insert(TABLE_STYLES_PATH.to_string(), styles.to_vec());
+        }
+        template.layout_ids = layout_ids(&template.parts[MASTER_PATH]);
 
-        Ok(PptxTemplate { parts, layout_count })
+        Ok(template)
+    }
+
+    /// Replace the content types of the standard layouts by those of the template's parts.
+    pub(crate) fn apply_content_types(&self, xml: &mut String) {
+        let mut standard = String::new();
+        append_layout_content_type_overrides(&mut standard, STANDARD_LAYOUT_COUNT);
+        for line in standard.lines().filter(|line| !line.is_empty()) {
+            *xml = xml.replacen(&format!("\n{line}"), "", 1);
+        }
+        let mut overrides = String::new();
+        for (path, content_type) in &self.content_types {
+            let part_name = format!("PartName=\"/{}\"", escape_xml(path));
+            if !xml.contains(&part_name) {
+                overrides.push_str(&format!(
+                    "\n<Override {part_name} ContentType=\"{}\"/>",
+                    escape_xml(content_type)
+                ));
+            }
+        }
+        if let Some(at) = xml.rfind("</Types>") {
+            xml.insert_str(at, &overrides);
+        }
+    }
+
+    /// Give the master an id that no layout of the template has.
+    pub(crate) fn apply_master_id(&self, xml: &mut String) {
+        let standard_id = SLIDE_MASTER_ID;
+        let id = (standard_id..)
+            .find(|id| !self.layout_ids.contains(&id.to_string()))
+            .unwrap_or(standard_id);
+        *xml = xml.replacen(
+            &format!("<p:sldMasterId id=\"{standard_id}\""),
+            &format!("<p:sldMasterId id=\"{id}\""),
+            1,
+        );
     }
 
     pub fn layout_count(&self) -> usize {
@@ -75,6 +291,40 @@ impl PptxTemplate {
     }
 }
 
+/// Content type of a part: its own, or that of its extension.
+fn content_type_of(types: &XmlElement, path: &str) -> Option<String> {
+    let attr_is = |e: &XmlElement, name: &str, value: &str| {
+        e.attr(name).is_some_and(|v| v.eq_ignore_ascii_case(value))
+    };
+    let own = types
+        .find_all("Override")
+        .into_iter()
+        .find(|e| attr_is(e, "PartName", &format!("/{path}")));
+    own.or_else(|| {
+        let extension = path.rsplit_once('.')?.1;
+        types
+            .find_all("Default")
+            .into_iter()
+            .find(|e| attr_is(e, "Extension", extension))
+    })
+    .and_then(|e| e.attr("ContentType"))
+    .map(str::to_string)
+}
+
+fn layout_ids(master: &[u8]) -> HashSet<String> {
+    XmlParser::parse(master)
+        .ok()
+        .as_ref()
+        .and_then(|m| m.find("sldLayoutIdLst"))
+        .map(|list| {
+            list.find_all("sldLayoutId")
+                .iter()
+                .filter_map(|e| e.attr("id").map(str::to_string))
+                .collect()
+        })
+        .unwrap_or_default()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From db68be340a958eca1602fd671377e4e9497e401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 65/81] fix: business templates show author, date and version

---
 src/templates.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/templates.rs b/src/templates.rs
index 2879f14..f8be027 100644
--- a/src/templates.rs
+++ b/src/templates.rs
@@ -24,7 +24,8 @@
 //! assert!(!pptx.is_empty());
 //! ```
 
-use crate::generator::{SlideContent, SlideLayout, create_pptx_with_content};
+use crate::generator::constants::{CENTERED_TITLE_HEIGHT, CENTERED_TITLE_Y, TITLE_WIDTH, TITLE_X};
+use crate::generator::{Shape, ShapeType, SlideContent, SlideLayout, create_pptx_with_content};
 use crate::exc::Result;
 
 /// Content for a business proposal presentation
@@ -117,6 +118,17 @@ impl<'a> Default for TechnicalContent<'a> {
     }
 }
 
+/// A centered title with one line of text below it (that layout shows no bullets)
+fn centered_slide(title: &str, subtitle: &str) -> SlideContent {
+    let mut slide = SlideContent::new(title).layout(SlideLayout::CenteredTitle);
+    if !subtitle.is_empty() {
+        let y = CENTERED_TITLE_Y + CENTERED_TITLE_HEIGHT;
+        let line = Shape::new(ShapeType::Rectangle, TITLE_X, y, TITLE_WIDTH, CENTERED_TITLE_HEIGHT / 2);
+        slide = slide.add_shape(line.with_text(subtitle));
+    }
+    slide
+}
+
 /// Create a business proposal presentation
 ///
 /// Structure:
@@ -138,9 +150,7 @@ pub fn business_proposal<'a>(
 
     // Title slide
     slides.push(
-        SlideContent::new(title)
-            .add_bullet(author)
-            .layout(SlideLayout::CenteredTitle)
+        centered_slide(title, author)
     );
 
     // Agenda
@@ -197,9 +207,7 @@ pub fn business_proposal<'a>(
 
     // Q&A
     slides.push(
-        SlideContent::new("Questions?")
-            .add_bullet("Discussion and Q&A")
-            .layout(SlideLayout::CenteredTitle)
+        centered_slide("Questions?", "Discussion and Q&A")
     );
 
     create_pptx_with_content(title, slides).map_err(|e| crate::exc::PptxError::InvalidOperation(e.to_string()))
@@ -223,9 +231,7 @@ pub fn training_material<'a>(
 
     // Title
     slides.push(
-        SlideContent::new(title)
-            .add_bullet(author)
-            .layout(SlideLayout::CenteredTitle)
+        centered_slide(title, author)
     );
 
     // Objectives
@@ -286,9 +292,7 @@ pub fn status_report<'a>(
 
     // Title
     slides.push(
-        SlideContent::new(title)
-            .add_bullet(date)
-            .layout(SlideLayout::CenteredTitle)
+        centered_slide(title, date)
     );
 
     // Summary
@@ -358,9 +362,7 @@ pub fn technical_doc<'a>(
 
     // Title
     slides.push(
-        SlideContent::new(title)
-            .add_bullet(&format!("Version {}", version))
-            .layout(SlideLayout::CenteredTitle)
+        centered_slide(title, &format!("Version {}", version))
     );
 
     // Overview
-- 
2.43.0


From 867aecffb431a210910dcd2e64b7c44a4bd832a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 66/81] fix: exports use temporary files of their own and
 remove them

---
 src/api.rs                 | 15 ++++++++++-----
 src/export/image_export.rs | 21 ++++++++++++---------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index aab3c39..e726110 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -197,12 +197,12 @@ impl Presentation {
             .arg(&temp_pdf_path)
             .arg(&prefix)
             .status()
-            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)));
 
         // Cleanup temp PDF
         let _ = std::fs::remove_file(&temp_pdf_path);
 
-        if !status.success() {
+        if !status?.success() {
             return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
         }
 
@@ -225,6 +225,13 @@ impl Presentation {
         let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
         std::fs::create_dir_all(&temp_dir)?;
 
+        let result = Self::from_pdf_pages(path, &temp_dir);
+        let _ = std::fs::remove_dir_all(&temp_dir);
+        result
+    }
+
+    /// Convert the pages of a PDF file to images in `temp_dir` and put each on a slide
+    fn from_pdf_pages(path: &Path, temp_dir: &Path) -> Result<Self> {
         // Convert PDF to PNGs
         let prefix = temp_dir.join("page");
 
@@ -236,7 +243,6 @@ impl Presentation {
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
             return Err(PptxError::Generic("pdftoppm failed".to_string()));
         }
 
@@ -248,7 +254,7 @@ impl Presentation {
         }
 
         // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
+        let mut entries: Vec<_> = std::fs::read_dir(temp_dir)?
             .filter_map(|e| e.ok())
             .collect();
 
@@ -293,7 +299,6 @@ impl Presentation {
             }
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index cd6a79a..e179a94 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -148,19 +148,22 @@ pub fn export_to_images<P: AsRef<Path>>(
     output_dir: P,
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
-    // First save presentation to temporary PPTX file
-    let temp_dir = std::env::temp_dir();
-    let temp_pptx = temp_dir.join("temp_export.pptx");
-    presentation.save(&temp_pptx)?;
-
     let output_dir = output_dir.as_ref();
     std::fs::create_dir_all(output_dir)?;
 
+    // First save presentation to temporary PPTX file, in a folder of its own:
+    // other exports may be running
+    let temp_dir = std::env::temp_dir().join(format!("ppt_rs_export_{}", uuid::Uuid::new_v4()));
+    std::fs::create_dir_all(&temp_dir)?;
+    let temp_pptx = temp_dir.join("temp_export.pptx");
+
     // Use LibreOffice to convert to images
-    let result = export_pptx_to_images(&temp_pptx, output_dir, options);
+    let result = presentation
+        .save(&temp_pptx)
+        .and_then(|_| export_pptx_to_images(&temp_pptx, output_dir, options));
 
-    // Cleanup temp file
-    let _ = std::fs::remove_file(&temp_pptx);
+    // Cleanup temp files
+    let _ = std::fs::remove_dir_all(&temp_dir);
 
     result
 }
@@ -194,7 +197,7 @@ pub fn export_slide_to_image<P: AsRef<Path>>(
     let expected_name = format!("Slide{}.{}", slide_number, slide_options.format.extension());
     for path in paths {
         if let Some(name) = path.file_name().and_then(|n| n.to_str())
-            && (name == expected_name || name.contains(&format!("Slide{}", slide_number))) {
+            && (name == expected_name || extract_slide_number(&path) == slide_number) {
                 // Rename to requested output path if different
                 if path != output_path.as_ref() {
                     std::fs::rename(&path, &output_path)?;
-- 
2.43.0


From d235369f668277017348ef352463d4c4715ee241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 67/81] fix: decks made from PDF files show the pages

---
 src/api.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index e726110..6afd2f7 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -4,7 +4,7 @@
 
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
-use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
+use crate::generator::{create_pptx_with_settings, Image, ImageSource, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
 use std::path::Path;
 use std::process::Command;
@@ -282,7 +282,9 @@ impl Presentation {
             let path = entry.path();
             if path.extension().is_some_and(|e| e == "png") {
                 // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                let mut image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                // The file is removed below
+                image.source = Some(ImageSource::Bytes(std::fs::read(&path)?));
 
                 // Add image to slide
                 // Use a default layout?
-- 
2.43.0


From 15d79ed5b54036f704ce09cfb4d20df4233d1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 68/81] fix: links on shapes get relationships of their own

---
 src/generator/builder.rs    | 47 ++++++++++++++++++++++++++++++-------
 src/generator/hyperlinks.rs | 12 +++++++++-
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index a75b508..9833c36 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -5,6 +5,7 @@ use zip::write::FileOptions;
 use zip::ZipWriter;
 use crate::exc::{PptxError, Result};
 use crate::core::append_usize;
+use super::hyperlinks::HyperlinkAction;
 use super::images::ImageSource;
 use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
@@ -64,21 +65,47 @@ fn resolve_images(slide: &mut SlideContent) {
     });
 }
 
-/// Slides with their images resolved, or `None` when they already are.
-fn with_resolved_images(slides: &[SlideContent]) -> Option<Vec<SlideContent>> {
-    let resolved = slides
-        .iter()
-        .flat_map(|slide| &slide.images)
-        .all(|image| matches!(image.source, Some(ImageSource::Bytes(_))));
+/// Give every link of a slide a relationship id of its own, after those of the other parts.
+/// Jumps within the show need no relationship; links to slides that are not there are left out.
+fn resolve_links(slide: &mut SlideContent, slide_count: usize) {
+    let mut next_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len())
+        + slide.charts.len()
+        + usize::from(slide.ink_annotations.is_some());
+    for shape in &mut slide.shapes {
+        let Some(link) = &mut shape.hyperlink else { continue };
+        if let HyperlinkAction::Slide(number) = link.action
+            && !(1..=slide_count).contains(&(number as usize)) {
+                shape.hyperlink = None;
+                continue;
+            }
+        if link.action.needs_relationship() {
+            link.r_id = Some(format!("rId{next_rid}"));
+            next_rid += 1;
+        } else {
+            link.r_id = Some(String::new());
+        }
+    }
+}
+
+/// Slides with their images and links resolved, or `None` when they already are.
+fn with_resolved_parts(slides: &[SlideContent]) -> Option<Vec<SlideContent>> {
+    let resolved = slides.iter().all(|slide| {
+        slide.images.iter().all(|image| matches!(image.source, Some(ImageSource::Bytes(_))))
+            && slide.shapes.iter().all(|shape| shape.hyperlink.is_none())
+    });
     if resolved {
         return None;
     }
     let mut slides = slides.to_vec();
-    slides.iter_mut().for_each(resolve_images);
+    let slide_count = slides.len();
+    for slide in &mut slides {
+        resolve_images(slide);
+        resolve_links(slide, slide_count);
+    }
     Some(slides)
 }
 
-/// Slide `i` of a lazy source with its images resolved.
+/// Slide `i` of a lazy source with its images and links resolved.
 fn generate_resolved_slide(slides: &dyn LazySlideSource, i: usize) -> Result<SlideContent> {
     let mut slide = slides.generate_slide(i).ok_or_else(|| {
         PptxError::InvalidState(format!(
@@ -88,6 +115,7 @@ fn generate_resolved_slide(slides: &dyn LazySlideSource, i: usize) -> Result<Sli
         ))
     })?;
     resolve_images(&mut slide);
+    resolve_links(&mut slide, slides.slide_count());
     Ok(slide)
 }
 
@@ -139,6 +167,7 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .filter_map(|h| {
             h.r_id
                 .as_ref()
+                .filter(|rid| !rid.is_empty())
                 .map(|rid| crate::generator::generate_hyperlink_relationship_xml(h, rid))
         })
         .collect()
@@ -777,7 +806,7 @@ fn write_package_files<W: Write + Seek>(
     custom_slides: Option<&[SlideContent]>,
     mut settings: Option<PresentationSettings>,
 ) -> Result<()> {
-    let resolved = custom_slides.and_then(with_resolved_images);
+    let resolved = custom_slides.and_then(with_resolved_parts);
     let custom_slides = resolved.as_deref().or(custom_slides);
 
     let has_notes = custom_slides
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4ff0301..905d05c 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -80,6 +80,11 @@ impl HyperlinkAction {
         }
     }
 
+    /// Whether the link refers to something outside its slide; jumps within the show do not
+    pub fn needs_relationship(&self) -> bool {
+        self.is_external() || matches!(self, HyperlinkAction::Slide(_))
+    }
+
     /// Check if this is an external link
     pub fn is_external(&self) -> bool {
         matches!(
@@ -216,6 +221,10 @@ pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 /// Generate relationship XML for hyperlink
 pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
     let target = hyperlink.action.relationship_target();
+    let rel_type = match hyperlink.action {
+        HyperlinkAction::Slide(_) => "slide",
+        _ => "hyperlink",
+    };
     let target_mode = if hyperlink.action.is_external() {
         r#" TargetMode="External""#
     } else {
@@ -223,8 +232,9 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
     };
 
     format!(
-        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
+        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}" Target="{}"{}/>"#,
         escape_xml(r_id),
+        rel_type,
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From 64dab0b14ee532b8fd6e550f4b31f23f446bfddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 69/81] fix: links by slide number follow the edited deck

---
 src/oxml/editor.rs | 48 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index f6bfc51..2b09a5d 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -12,6 +12,7 @@ use super::xmlchemy::XmlParser;
 use crate::core::escape_xml;
 use crate::exc::{messages, PptxError};
 use crate::generator::create_pptx_with_content;
+use crate::generator::hyperlinks::HyperlinkAction;
 use crate::generator::slide_content::SlideContent;
 use crate::opc::Package;
 use std::collections::HashMap;
@@ -92,11 +93,12 @@ impl PresentationEditor {
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
         let path = self.slide_path(index)?;
-        let source = Self::single_slide_package(content)?;
+        let order = self.slide_paths();
+        let source = Self::package_for_slide(content, index, order.len())?;
         let old = self.rels(&path);
         self.package.remove_part(&rels_path(&path));
         self.drop_unreferenced(&path, &old);
-        self.copy_slide(&source, "ppt/slides/slide1.xml", &path)?;
+        self.copy_new_slide(&source, index, &order);
         self.update_app_props();
         Ok(())
     }
@@ -133,9 +135,11 @@ impl PresentationEditor {
         if index > self.slide_count() {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
-        let source = Self::single_slide_package(content)?;
         let path = self.free_path("ppt/slides/slide1.xml");
-        self.copy_slide(&source, "ppt/slides/slide1.xml", &path)?;
+        let mut order = self.slide_paths();
+        order.insert(index.min(order.len()), path.clone());
+        let source = Self::package_for_slide(content, index, order.len())?;
+        self.copy_new_slide(&source, index, &order);
         self.link_slide(index, &path)?;
         Ok(index)
     }
@@ -319,12 +323,42 @@ impl PresentationEditor {
 
     // Copying parts
 
-    /// A package holding nothing but the given slide and what it needs.
-    fn single_slide_package(content: SlideContent) -> Result<Package, PptxError> {
-        let bytes = create_pptx_with_content("Slide", vec![content])?;
+    /// A package with the given slide and what it needs. Where the slide links to others by
+    /// number, it takes its place `index` among `count` slides; otherwise it is alone.
+    fn package_for_slide(
+        content: SlideContent,
+        index: usize,
+        count: usize,
+    ) -> Result<Package, PptxError> {
+        let jumps = content.shapes.iter().any(|shape| {
+            shape
+                .hyperlink
+                .as_ref()
+                .is_some_and(|link| matches!(link.action, HyperlinkAction::Slide(_)))
+        });
+        let mut slides = vec![content];
+        if jumps {
+            slides.splice(0..0, vec![SlideContent::new(""); index]);
+            slides.resize(count, SlideContent::new(""));
+        }
+        let bytes = create_pptx_with_content("Slide", slides)?;
         Package::open_reader(Cursor::new(bytes))
     }
 
+    /// Copy the slide made by `package_for_slide` to its place among the slides `order`.
+    fn copy_new_slide(&mut self, source: &Package, index: usize, order: &[String]) {
+        let numbered = |n: usize| format!("ppt/slides/slide{n}.xml");
+        let (path, mut copied) = if source.has_part(&numbered(2)) {
+            let places = order.iter().enumerate();
+            let copied = places.map(|(i, p)| (numbered(i + 1), p.clone())).collect();
+            (numbered(index + 1), copied)
+        } else {
+            (numbered(1), HashMap::from([(numbered(1), order[index].clone())]))
+        };
+        self.copy_part(source, &path, &order[index], &mut copied);
+        self.set_content_type(&order[index], SLIDE_TYPE);
+    }
+
     /// Copy a slide with its notes, charts and media from `source` to `new_path`.
     fn copy_slide(
         &mut self,
-- 
2.43.0


From 54266c433a7baebe87257f9af19c529812907bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:37 +0000
Subject: [PATCH 70/81] fix: removing a slide removes the links that lead to it

---
 src/oxml/editor.rs | 71 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 2b09a5d..81c09db 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -114,6 +114,7 @@ impl PresentationEditor {
         rels.retain(|r| r.id != removed.rel_id);
         self.set_rels(PRESENTATION, &rels);
         self.remove_tree(&path);
+        self.drop_links_to(&path);
         self.update_app_props();
         Ok(())
     }
@@ -490,6 +491,31 @@ impl PresentationEditor {
         self.drop_unreferenced(path, &rels);
     }
 
+    /// Take the links to a removed slide off the parts that still have them.
+    fn drop_links_to(&mut self, removed: &str) {
+        let parts: Vec<String> = self.package.part_paths().into_iter().map(String::from).collect();
+        for part in parts.iter().filter(|p| *p != PRESENTATION && p.ends_with(".xml")) {
+            let mut rels = self.rels(part);
+            let leads_there = |r: &Rel| {
+                !r.external && r.is("slide") && resolve_target(folder(part), &r.target) == removed
+            };
+            let Some(mut xml) = rels
+                .iter()
+                .any(leads_there)
+                .then(|| self.package.get_part_string(part))
+                .flatten()
+            else {
+                continue;
+            };
+            for rel in rels.iter().filter(|r| leads_there(r)) {
+                xml = without_links(&xml, &rel.id);
+            }
+            rels.retain(|r| !leads_there(r));
+            self.set_rels(part, &rels);
+            self.package.add_part(part.clone(), xml.into_bytes());
+        }
+    }
+
     /// Remove the parts `rels` of `path` pointed at when nothing else does.
     fn drop_unreferenced(&mut self, path: &str, rels: &[Rel]) {
         for rel in rels.iter().filter(|r| !r.external) {
@@ -612,6 +638,51 @@ pub(crate) fn relative_target(base: &str, path: &str) -> String {
     parts.join("/")
 }
 
+/// Where a tag ends: the first `>` outside its attribute values.
+fn tag_end(tag: &str) -> Option<usize> {
+    let mut quote = None;
+    tag.find(|c: char| {
+        match quote {
+            Some(open) if c == open => quote = None,
+            None if c == '"' || c == '\'' => quote = Some(c),
+            _ => {}
+        }
+        quote.is_none() && c == '>'
+    })
+}
+
+/// `xml` without the link elements that use relationship `rel_id`.
+fn without_links(xml: &str, rel_id: &str) -> String {
+    let id = escape_xml(rel_id);
+    let uses_id = [format!(":id=\"{id}\""), format!(":id='{id}'")];
+    let mut kept = String::with_capacity(xml.len());
+    let mut rest = xml;
+    while let Some(start) = rest.find('<') {
+        let tag = &rest[start + 1..];
+        let name = tag.split([' ', '\t', '\r', '\n', '/', '>']).next().unwrap_or_default();
+        let local = name.rsplit(':').next().unwrap_or_default();
+        let is_link = ["hlinkClick", "hlinkHover", "hlinkMouseOver"].contains(&local);
+        let link = is_link
+            .then(|| tag_end(tag))
+            .flatten()
+            .map(|end| &tag[..end])
+            .filter(|link| uses_id.iter().any(|u| link.contains(u.as_str())));
+        let Some(link) = link else {
+            kept.push_str(&rest[..=start]);
+            rest = tag;
+            continue;
+        };
+        kept.push_str(&rest[..start]);
+        rest = &tag[link.len() + 1..];
+        if !link.ends_with('/') {
+            let close = format!("</{name}>");
+            rest = rest.find(&close).map_or(rest, |p| &rest[p + close.len()..]);
+        }
+    }
+    kept.push_str(rest);
+    kept
+}
+
 pub(crate) fn package_rels(package: &Package, path: &str) -> Vec<Rel> {
     package
         .get_part_string(&rels_path(path))
-- 
2.43.0


From d353395ae4168f971c747e19346a098f0afcb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:19 +0000
Subject: [PATCH 71/81] fix: colour names of pages in any case

---
 src/import/html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 490cafa..564daf7 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -229,7 +229,8 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 
 /// Parse a CSS color value to a 6-digit hex string (without #)
 fn parse_css_color(value: &str) -> Option<String> {
-    let value = value.trim();
+    let value = value.trim().to_ascii_lowercase();
+    let value = value.as_str();
     if let Some(hex) = value.strip_prefix('#') {
         if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
-- 
2.43.0


From f387b4ecdde0d4480805d9165b97f3d8651286b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:35 +0000
Subject: [PATCH 72/81] fix: picture export returns the pictures of this deck
 only

---
 src/export/image_export.rs | 62 ++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index e179a94..fe096ab 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -157,10 +157,20 @@ pub fn export_to_images<P: AsRef<Path>>(
     std::fs::create_dir_all(&temp_dir)?;
     let temp_pptx = temp_dir.join("temp_export.pptx");
 
-    // Use LibreOffice to convert to images
+    // Use LibreOffice to convert to images, apart from those that are in the folder already
+    let images_dir = temp_dir.join("images");
     let result = presentation
         .save(&temp_pptx)
-        .and_then(|_| export_pptx_to_images(&temp_pptx, output_dir, options));
+        .and_then(|_| export_pptx_to_images(&temp_pptx, &images_dir, options))
+        .and_then(|images| {
+            images
+                .iter()
+                .filter(|image| {
+                    options.slide_number == 0 || shows_slide(image, options.slide_number)
+                })
+                .map(|image| copy_into(image, output_dir))
+                .collect()
+        });
 
     // Cleanup temp files
     let _ = std::fs::remove_dir_all(&temp_dir);
@@ -186,28 +196,33 @@ pub fn export_slide_to_image<P: AsRef<Path>>(
     let mut slide_options = options.clone();
     slide_options.slide_number = slide_number;
 
-    let output_dir = output_path
-        .as_ref()
-        .parent()
-        .unwrap_or(std::path::Path::new("."));
-
-    let paths = export_to_images(presentation, output_dir, &slide_options)?;
-
-    // Find the specific slide file
-    let expected_name = format!("Slide{}.{}", slide_number, slide_options.format.extension());
-    for path in paths {
-        if let Some(name) = path.file_name().and_then(|n| n.to_str())
-            && (name == expected_name || extract_slide_number(&path) == slide_number) {
-                // Rename to requested output path if different
-                if path != output_path.as_ref() {
-                    std::fs::rename(&path, &output_path)?;
-                    return Ok(output_path.as_ref().to_path_buf());
-                }
-                return Ok(path);
-            }
-    }
+    // The folder of the image may hold others of the same names
+    let images_dir = std::env::temp_dir().join(format!("ppt_rs_export_{}", uuid::Uuid::new_v4()));
+    let result = export_to_images(presentation, &images_dir, &slide_options).and_then(|paths| {
+        let image = paths
+            .first()
+            .ok_or_else(|| PptxError::Generic(String::from("Export failed")))?;
+        if let Some(folder) = output_path.as_ref().parent() {
+            std::fs::create_dir_all(folder)?;
+        }
+        std::fs::copy(image, &output_path)?;
+        Ok(output_path.as_ref().to_path_buf())
+    });
+    let _ = std::fs::remove_dir_all(&images_dir);
+
+    result
+}
 
-    Err(PptxError::Generic(String::from("Export failed")))
+/// Whether an image file shows the slide. LibreOffice does not number the image of the first.
+fn shows_slide(image: &Path, slide_number: usize) -> bool {
+    extract_slide_number(image).max(1) == slide_number
+}
+
+/// Copy a file into a folder
+fn copy_into(file: &Path, folder: &Path) -> Result<std::path::PathBuf> {
+    let target = folder.join(file.file_name().unwrap_or_default());
+    std::fs::copy(file, &target)?;
+    Ok(target)
 }
 
 /// Internal function to export PPTX file to images using LibreOffice
@@ -218,6 +233,7 @@ fn export_pptx_to_images<P: AsRef<Path>, Q: AsRef<Path>>(
 ) -> Result<Vec<std::path::PathBuf>> {
     let pptx_path = pptx_path.as_ref();
     let output_dir = output_dir.as_ref();
+    std::fs::create_dir_all(output_dir)?;
 
     // Check if LibreOffice is available
     if !is_libreoffice_available() {
-- 
2.43.0


From 638ebf55ecd2d0fc2299c4105e6d0d1f324c6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 73/81] fix: write both merge flags of a table cell inside a
 block of merged cells

---
 src/generator/table/format.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index e4956f8..91fdbe4 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -33,6 +33,10 @@ impl TableCell {
 
 /// Merge attributes for `<a:tc>` from cell state.
 pub fn merge_attrs_from_cell(cell: &TableCell) -> String {
+    // A cell inside a block of several rows and columns continues it both ways
+    if cell.h_merge && cell.v_merge {
+        return CellMergeState::HMerge.to_xml_attrs() + &CellMergeState::VMerge.to_xml_attrs();
+    }
     if cell.h_merge {
         return CellMergeState::HMerge.to_xml_attrs();
     }
-- 
2.43.0


From 16eea1056f53f31b980495a7474cb62f4c25d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:39 +0000
Subject: [PATCH 74/81] fix: keep attributes of mermaid entities that have a
 brace in their comment

---
 src/cli/markdown/mermaid/er_diagram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index 3d765ab..6f22045 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -49,7 +49,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             declare(&mut entities, &e1);
             declare(&mut entities, &e2);
             relationships.push((e1, e2, label));
-        } else if line.contains('{') {
+        } else if current_entity.is_empty() && line.contains('{') {
             current_entity = line.split('{').next().unwrap_or("").trim().to_string();
             declare(&mut entities, &current_entity);
         } else if line == "}" {
-- 
2.43.0


From 42f3c1651930cdba7febe7813e8354f334292cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:13 +0000
Subject: [PATCH 75/81] fix: analysis summary no longer appends MB to a size
 that has its own unit

---
 src/opc/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 07afd8e..e507ab6 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -518,7 +518,7 @@ impl PptxAnalysis {
         format!(
             "PPTX Analysis:\n\
             - Total size: {}\n\
-            - Images: {} ({} MB)\n\
+            - Images: {} ({})\n\
             - Slides: {}\n\
             - XML data: {}\n\
             - Other media: {} files ({})",
-- 
2.43.0


From 2088b90702722d947f152b10337ae76565dca688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:56 +0000
Subject: [PATCH 76/81] fix: repair lists a slide that only a custom show still
 names

---
 src/oxml/repair.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 20b12a1..760e324 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -394,13 +394,18 @@ impl PptxRepair {
 
     /// Relationship ids an XML part refers to
     fn references(&self, path: &str) -> BTreeSet<String> {
+        self.references_of(path, |_| true)
+    }
+
+    /// The relationship ids used in a part by elements with a name that is `wanted`.
+    fn references_of(&self, path: &str, wanted: impl Fn(&str) -> bool) -> BTreeSet<String> {
         let mut used = BTreeSet::new();
         let Some(content) = self.package.get_part(path) else {
             return used;
         };
         for event in EventReader::new(content) {
             match event {
-                Ok(XmlEvent::StartElement { attributes, .. }) => {
+                Ok(XmlEvent::StartElement { name, attributes, .. }) if wanted(&name.local_name) => {
                     used.extend(
                         attributes
                             .into_iter()
@@ -454,7 +459,8 @@ impl PptxRepair {
 
     /// Slides the slide list of the presentation leads to
     fn referenced_slides(&self) -> HashSet<String> {
-        let listed = self.references(PRESENTATION);
+        // A custom show may name slides too, but does not list them
+        let listed = self.references_of(PRESENTATION, |name| name == "sldId");
         package_rels(&self.package, PRESENTATION)
             .into_iter()
             .filter(|r| r.is("slide") && !r.external && listed.contains(&r.id))
-- 
2.43.0


From f02a1ac8192aa7ca99e94b779b382e00c6ec0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:18 +0000
Subject: [PATCH 77/81] fix: removing a slide takes it out of custom shows,
 sections and the outline

---
 src/oxml/editor.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 81c09db..973bc48 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -110,6 +110,14 @@ impl PresentationEditor {
         let removed = slides.remove(index);
         self.set_slides(&slides)?;
 
+        // Custom shows and sections mention the slide as well
+        if let Some(xml) = self.package.get_part_string(PRESENTATION) {
+            let xml = without_links(&xml, &removed.rel_id);
+            let id = [format!(" id=\"{}\"", removed.id), format!(" id='{}'", removed.id)];
+            let xml = without_elements(&xml, &["sldId"], |tag| id.iter().any(|i| tag.contains(i.as_str())));
+            self.package.add_part(PRESENTATION.to_string(), xml.into_bytes());
+        }
+
         let mut rels = self.rels(PRESENTATION);
         rels.retain(|r| r.id != removed.rel_id);
         self.set_rels(PRESENTATION, &rels);
@@ -651,30 +659,39 @@ fn tag_end(tag: &str) -> Option<usize> {
     })
 }
 
-/// `xml` without the link elements that use relationship `rel_id`.
+/// `xml` without the links and other mentions of a slide that use relationship `rel_id`.
 fn without_links(xml: &str, rel_id: &str) -> String {
     let id = escape_xml(rel_id);
     let uses_id = [format!(":id=\"{id}\""), format!(":id='{id}'")];
+    without_elements(
+        xml,
+        &["hlinkClick", "hlinkHover", "hlinkMouseOver", "sld"],
+        |tag| uses_id.iter().any(|u| tag.contains(u.as_str())),
+    )
+}
+
+/// `xml` without the elements called one of `names` with a tag that is `unwanted`.
+fn without_elements(xml: &str, names: &[&str], unwanted: impl Fn(&str) -> bool) -> String {
     let mut kept = String::with_capacity(xml.len());
     let mut rest = xml;
     while let Some(start) = rest.find('<') {
         let tag = &rest[start + 1..];
         let name = tag.split([' ', '\t', '\r', '\n', '/', '>']).next().unwrap_or_default();
         let local = name.rsplit(':').next().unwrap_or_default();
-        let is_link = ["hlinkClick", "hlinkHover", "hlinkMouseOver"].contains(&local);
-        let link = is_link
+        let cut = names
+            .contains(&local)
             .then(|| tag_end(tag))
             .flatten()
             .map(|end| &tag[..end])
-            .filter(|link| uses_id.iter().any(|u| link.contains(u.as_str())));
-        let Some(link) = link else {
+            .filter(|cut| unwanted(cut));
+        let Some(cut) = cut else {
             kept.push_str(&rest[..=start]);
             rest = tag;
             continue;
         };
         kept.push_str(&rest[..start]);
-        rest = &tag[link.len() + 1..];
-        if !link.ends_with('/') {
+        rest = &tag[cut.len() + 1..];
+        if !cut.ends_with('/') {
             let close = format!("</{name}>");
             rest = rest.find(&close).map_or(rest, |p| &rest[p + close.len()..]);
         }
-- 
2.43.0


From 4b38967d6cd7162b696aaa311dd8b4f9335a6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:09 +0000
Subject: [PATCH 78/81] fix: validation asks for a content type of its own for
 every XML part

---
 src/core/package_validation/rules.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 84ce692..77bc207 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -155,6 +155,13 @@ fn check_content_types<R: Read + Seek>(
                 format!("Part {path} has no Override or Default in [Content_Types].xml"),
                 Some(path),
             ));
+        } else if ext == "xml" && (path.starts_with("ppt/") || path.starts_with("docProps/")) {
+            // The default type of XML says nothing about what the part is
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::ContentType,
+                format!("Part {path} has no Override in [Content_Types].xml"),
+                Some(path),
+            ));
         }
     }
 }
-- 
2.43.0


From fb07e0a84928bc20398e92b8daac02ccc334744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:20 +0000
Subject: [PATCH 79/81] fix: touching core properties at the greatest revision
 number no longer overflows

---
 src/parts/coreprops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index ab44a75..224904b 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -85,7 +85,7 @@ impl CorePropertiesPart {
     pub fn touch(&mut self) {
         self.modified = Some(current_timestamp());
         if let Some(ref mut rev) = self.revision {
-            *rev += 1;
+            *rev = rev.saturating_add(1);
         }
     }
 
-- 
2.43.0


From b114ce38c71f46a2d78a196a8150e19b0b304bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:40 +0000
Subject: [PATCH 80/81] fix: lines of exported PDF pages end where their
 characters reach the margin

---
 src/export/slide_render.rs | 43 ++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index de5f581..9629622 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -122,9 +122,25 @@ fn draw_text_line(
     out.extend_from_slice(b"ET\n");
 }
 
+/// A width that no Helvetica font exceeds for this character
+fn char_width(c: char) -> f32 {
+    match c {
+        '\'' | 'i' | 'j' | 'l' | '|' | ' ' | '!' | ',' | '.' | '/' | '\\' | 'I' => 0.28,
+        '(' | ')' | '[' | ']' | ':' | ';' | '`' | 'f' | 't' | '-' => 0.34,
+        '"' | '*' | 'r' | '{' | '}' | '\u{2022}' => 0.48,
+        '0'..='9' | 'a' | 'c' | 'e' | 'k' | 's' | 'v' | 'x' | 'y' | 'z' | 'J' | '_' | '$' | '#' => 0.56,
+        'b' | 'd' | 'g' | 'h' | 'n' | 'o' | 'p' | 'q' | 'u' | 'F' | 'L' | 'T' | 'Z' | '^' | '+' | '<'..='?' | '~' => 0.62,
+        'A'..='L' | 'N'..='V' | 'X' | 'Y' | 'w' | '&' => 0.78,
+        'M' | 'm' | '%' => 0.89,
+        'W' => 0.95,
+        '@' | 'Æ' | 'Œ' | 'œ' | '—' | '…' | '‰' | '™' => 1.02,
+        'æ' | '¼'..='¾' => 0.89,
+        _ => 0.78,
+    }
+}
+
 fn approx_text_width(text: &str, font_size: f32) -> f32 {
-    let char_count = text.chars().count() as f32;
-    char_count * font_size * 0.5
+    text.chars().map(char_width).sum::<f32>() * font_size
 }
 
 fn bullet_prefix(style: BulletStyle, index: u32) -> String {
@@ -160,12 +176,28 @@ fn to_letters(index: u32) -> String {
 
 /// Break text into lines that are not wider than `width`
 fn wrap(text: &str, width: f32, font_size: f32) -> Vec<String> {
-    let max = ((width / approx_text_width("x", font_size)) as usize).max(1);
+    wrap_by(text, width, |c| char_width(c) * font_size)
+}
+
+fn wrap_by(text: &str, width: f32, advance: impl Fn(char) -> f32) -> Vec<String> {
+    // How many characters have room on a line
+    let fitting = |chars: &[char]| {
+        let mut used = 0.0;
+        let fits = chars.iter().take_while(|c| {
+            used += advance(**c);
+            used <= width
+        });
+        fits.count().max(1)
+    };
     let mut lines = Vec::new();
     for paragraph in text.split(['\n', '\u{b}', '\r']) {
         let chars: Vec<char> = paragraph.replace('\t', "    ").chars().collect();
         let mut rest = &chars[..];
-        while rest.len() > max {
+        loop {
+            let max = fitting(rest);
+            if rest.len() <= max {
+                break;
+            }
             let at = rest[..=max].iter().rposition(|c| *c == ' ').filter(|at| *at > 0).unwrap_or(max);
             lines.push(rest[..at].iter().collect());
             rest = &rest[at..];
@@ -307,8 +339,7 @@ fn body_rows(slide: &SlideContent, page_w: f32, margin: f32, scale: f32) -> Vec<
         let code_size = content_size * 0.85;
         rows.push(Row { height: line_height * 0.5, ..row(Vec::new()) });
         for line in code_block.code.lines() {
-            // The characters of Courier are wider
-            for line in wrap(line, width - 16.0, code_size * 1.2) {
+            for line in wrap_by(line, width - 16.0, |_| code_size * 0.6) {
                 rows.push(Row {
                     texts: vec![(margin + 8.0, line)],
                     font: FONT_COURIER,
-- 
2.43.0


From 25f3d97de812447c947b3ee7458e5c481819a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:04 +0000
Subject: [PATCH 81/81] fix: validation reports repeated entries and
 relationship names

---
 src/core/package_validation/rules.rs | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 77bc207..7857a2a 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -110,6 +110,13 @@ fn check_xml_parts<R: Read + Seek>(
 
 fn check_relationship_targets(ctx: &PackageContext, report: &mut PackageValidationReport) {
     for (rels_path, relationships) in ctx.relationship_parts() {
+        for id in repeated(relationships.iter().map(|rel| rel.id.as_str())) {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Relationship,
+                format!("{rels_path} has several relationships with Id=\"{id}\""),
+                Some(rels_path),
+            ));
+        }
         for rel in relationships {
             // External relationships (e.g. hyperlinks to URLs) point outside the
             // package and therefore have no resolvable part to validate.
@@ -224,6 +231,17 @@ fn check_presentation_structure<R: Read + Seek>(
         }
     }
 
+    for attr in ["id", "r:id"] {
+        let values = extract_attr_values(&pres, "p:sldId", attr);
+        for value in repeated(values.iter().map(String::as_str)) {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Presentation,
+                format!("Several p:sldId entries have {attr}=\"{value}\""),
+                Some("ppt/presentation.xml"),
+            ));
+        }
+    }
+
     let slide_parts: usize = ctx
         .names
         .iter()
@@ -321,6 +339,17 @@ fn check_slide_master<R: Read + Seek>(
         }
     }
 
+    for attr in ["id", "r:id"] {
+        let values = extract_attr_values(&master, "p:sldLayoutId", attr);
+        for value in repeated(values.iter().map(String::as_str)) {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::SlideMaster,
+                format!("Several p:sldLayoutId entries have {attr}=\"{value}\""),
+                Some("ppt/slideMasters/slideMaster1.xml"),
+            ));
+        }
+    }
+
     // PowerPoint omits id on notes/handout master entries; flag collisions if present.
 }
 
@@ -581,6 +610,12 @@ fn is_slide_part(path: &str) -> bool {
         && !path.contains("/_rels/")
 }
 
+/// The values that are there more than once
+fn repeated<'a>(values: impl Iterator<Item = &'a str>) -> Vec<&'a str> {
+    let mut seen = HashSet::new();
+    values.filter(|value| !seen.insert(*value)).collect()
+}
+
 /// Extract `attr="value"` from elements like `<p:sldId id="256" r:id="rId6"/>`.
 fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
     let mut values = Vec::new();
-- 
2.43.0

